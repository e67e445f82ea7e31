"""C04: the JSON parser against RFC 8259 (Python's json module, tightened) and, in partial mode, against a
small recursive-descent parser that knows exactly where a truncated document ends."""
import json, sys
from pydantic_core import from_json
from mc.lib import *

LEVEL = 'exploration'
RULE = ('every token string, number string, string-escape text, byte sequence and truncation up to the bounds, given to from_json and to '
        'an any validator as str/bytes/bytearray under the cache and partial settings; non-trivial: the text is accepted, or is a '
        'truncation of an acceptable document')
ASSUME = ['the reference for complete documents is CPython json.loads, tightened to reject lone surrogates and to the 4300 digit limit',
          'texts that are no prefix of any JSON document are only required not to be accepted in normal mode; in partial mode they are required not to crash',
          'NaN, Infinity and -Infinity count as numbers unless allow_inf_nan is False']
BOUNDS = {'quick': 'structure tokens <=6, number characters <=6, all \\uXXXX, all 1-3 byte UTF-8 boundary sequences, depth 180-198, 204-223 and 10^4 (limit 200), 4299-4301 digits',
          'thorough': 'structure tokens <=7, number characters <=7, as quick otherwise with 4 byte sequences'}
ANY = SchemaValidator(cs.any_schema())
ANYC = {m: SchemaValidator(cs.any_schema(), config={'cache_strings': m}) for m in ('all', 'keys', 'none', True, False)}
WS = ' \t\n\r'
sys.set_int_max_str_digits(0)


class EOF(Exception):
    pass


class BAD(Exception):
    pass


class Ref:
    """RFC 8259 parser with partial semantics; EOF is raised out of an incomplete element."""

    def __init__(self, s, inf_nan=True, partial=None):
        self.s, self.n, self.i, self.inf_nan, self.partial = s, len(s), 0, inf_nan, partial
        self.cut = False

    def ws(self):
        while self.i < self.n and self.s[self.i] in WS:
            self.i += 1

    def doc(self):
        v = self.value(0)
        if not self.cut:
            self.ws()
            if self.i < self.n:
                raise BAD
        return v

    def value(self, depth):
        self.ws()
        if self.i >= self.n:
            raise EOF
        c = self.s[self.i]
        if c == '[':
            if depth >= 200: raise BAD
            return self.array(depth + 1)
        if c == '{':
            if depth >= 200: raise BAD
            return self.object(depth + 1)
        if c == '"':
            return self.string()
        if c in '-0123456789':
            return self.number()
        for w, v in (('null', None), ('true', True), ('false', False), ('NaN', float('nan')), ('Infinity', float('inf'))):
            if w[0] == c:
                if w[0] in 'NI' and not self.inf_nan:
                    raise BAD
                return self.word(w, v)
        raise BAD

    def word(self, w, v):
        for ch in w:
            if self.i >= self.n: raise EOF
            if self.s[self.i] != ch: raise BAD
            self.i += 1
        return v

    def number(self):
        s, n, st = self.s, self.n, self.i
        i = st
        if s[i] == '-':
            i += 1
            if i >= n: raise EOF
            if s[i] == 'I' and self.inf_nan:
                self.i = i
                return self.word('Infinity', float('-inf'))
        if s[i] == '0':
            i += 1
            if i < n and s[i] in '0123456789': raise BAD
        elif s[i] in '123456789':
            while i < n and s[i] in '0123456789': i += 1
        else:
            raise BAD
        isf = False
        if i < n and s[i] == '.':
            isf = True
            i += 1
            if i >= n: raise EOF
            if s[i] not in '0123456789': raise BAD
            while i < n and s[i] in '0123456789': i += 1
        if i < n and s[i] in 'eE':
            isf = True
            i += 1
            if i >= n: raise EOF
            if s[i] in '+-':
                i += 1
                if i >= n: raise EOF
            if s[i] not in '0123456789': raise BAD
            while i < n and s[i] in '0123456789': i += 1
        self.i = i
        t = s[st:i]
        if isf:
            return float(t)
        if len(t) > 4300: raise BAD
        return int(t)

    def string(self):
        s, n = self.s, self.n
        i = self.i + 1
        out = []
        while True:
            if i >= n:
                if self.partial == 'trailing-strings':
                    self.cut = True
                    self.i = n
                    return ''.join(out)
                raise EOF
            c = s[i]
            if c == '"':
                self.i = i + 1
                return ''.join(out)
            if c < ' ': raise BAD
            if c != '\\':
                out.append(c)
                i += 1
                continue
            i += 1
            if i >= n: raise EOF
            c = s[i]
            if c in '"\\/bfnrt':
                out.append({'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}.get(c, c))
                i += 1
                continue
            if c != 'u': raise BAD
            u, i = self.hex(i + 1)
            if 0xDC00 <= u < 0xE000: raise BAD
            if 0xD800 <= u < 0xDC00:
                if i >= n: raise EOF
                if s[i] != '\\': raise BAD
                if i + 1 >= n: raise EOF
                if s[i + 1] != 'u': raise BAD
                l, i = self.hex(i + 2)
                if not 0xDC00 <= l < 0xE000: raise BAD
                u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00)
            out.append(chr(u))

    def hex(self, i):
        u = 0
        for k in range(4):
            if i >= self.n: raise EOF
            c = self.s[i]
            if c not in '0123456789abcdefABCDEF': raise BAD
            u = u * 16 + int(c, 16)
            i += 1
        return u, i

    def array(self, depth):
        self.i += 1
        out = []
        try:
            self.ws()
            if self.i >= self.n: raise EOF
            if self.s[self.i] == ']':
                self.i += 1
                return out
            while True:
                out.append(self.value(depth))
                if self.cut: return out
                self.ws()
                if self.i >= self.n: raise EOF
                c = self.s[self.i]
                self.i += 1
                if c == ']': return out
                if c != ',': raise BAD
        except EOF:
            if not self.partial: raise
            self.cut = True
            return out

    def object(self, depth):
        self.i += 1
        out = {}
        try:
            self.ws()
            if self.i >= self.n: raise EOF
            if self.s[self.i] == '}':
                self.i += 1
                return out
            while True:
                self.ws()
                if self.i >= self.n: raise EOF
                if self.s[self.i] != '"': raise BAD
                p, self.partial = self.partial, None
                try:
                    k = self.string()
                finally:
                    self.partial = p
                self.ws()
                if self.i >= self.n: raise EOF
                if self.s[self.i] != ':': raise BAD
                self.i += 1
                v = self.value(depth)
                out[k] = v
                if self.cut: return out
                self.ws()
                if self.i >= self.n: raise EOF
                c = self.s[self.i]
                self.i += 1
                if c == '}': return out
                if c != ',': raise BAD
        except EOF:
            if not self.partial: raise
            self.cut = True
            return out


def ref(s, inf_nan=True, partial=None):
    r = Ref(s, inf_nan, partial)
    try:
        return ('ok', canon(r.doc()))
    except EOF:
        return ('eof',)
    except BAD:
        return ('bad',)


def fast_ref(s):
    """complete-document verdict by CPython's parser (short texts without surrogate escapes)"""
    try:
        return ('ok', canon(json.loads(s)))
    except ValueError:
        return ('bad',)


def got(fn, *a, **kw):
    try:
        return ('ok', canon(fn(*a, **kw)))
    except ValidationError as e:
        es = e.errors(include_url=False)
        if len(es) == 1 and es[0]['type'] == 'json_invalid' and es[0]['loc'] == ():
            return ('bad',)
        return ('err', errs(e))
    except ValueError as e:
        return ('bad',) if type(e) is ValueError else ('exc', repr(e))
    except BaseException as e:
        guard(e, a)
        return ('exc', type(e).__name__, str(e))


def judge(ctx, s, want, label, forms=False, partial=True):
    """want: reference verdict on the complete text"""
    g = got(from_json, s)
    if g != (want if want[0] == 'ok' else ('bad',)):
        ctx.fail(f'{label}: from_json({s[:200]!r}) {want[0]}', got=g, want=want)
    g2 = got(ANY.validate_json, s)
    if g2 != g:
        ctx.fail(f'{label}: validate_json({s[:200]!r})', got=g2, want=g)
    nt = want[0] == 'ok'
    if forms:
        b = s.encode()
        for x in (b, bytearray(b)):
            for f in (from_json, ANY.validate_json):
                g3 = got(f, x)
                if g3 != g:
                    ctx.fail(f'{label}: bytes {x[:200]!r}', got=g3, want=g)
        for m in ('all', 'keys', 'none', True, False):
            for f in (lambda x: from_json(x, cache_strings=m), ANYC[m].validate_json):
                g3 = got(f, s)
                if g3 != g:
                    ctx.fail(f'{label}: cache {m} {s[:200]!r}', got=g3, want=g)
        g3 = got(from_json, s, allow_inf_nan=False)
        w3 = ref(s, inf_nan=False)
        if g3 != (w3 if w3[0] == 'ok' else ('bad',)):
            ctx.fail(f'{label}: allow_inf_nan=False {s[:200]!r}', got=g3, want=w3)
    if partial:
        for mode in (True, 'on', 'trailing-strings'):
            p = got(from_json, s, allow_partial=mode)
            if want[0] == 'ok':
                w = want
            else:
                w = ref(s, partial=mode)
                if w[0] == 'ok':
                    nt = True
                elif w[0] == 'eof':
                    w = ('bad',)
                    nt = True
                else:
                    if p[0] not in ('ok', 'bad'):
                        ctx.fail(f'{label}: partial={mode} {s[:200]!r} exc', got=p)
                    continue
            if p != w:
                ctx.fail(f'{label}: partial={mode} {s[:200]!r}', got=p, want=w)
            if mode == 'on':
                continue
            if 'N' in s or 'I' in s:
                # the option about the constants is independent of the partial mode
                p2 = got(from_json, s, allow_partial=mode, allow_inf_nan=False)
                w2 = ref(s, inf_nan=False, partial=mode)
                if w2[0] == 'ok' and p2 != w2 or p2[0] not in ('ok', 'bad') or p2 != p and w2 == w or any(x in str(p2) for x in ('nan', 'inf')):
                    ctx.fail(f'{label}: partial={mode} allow_inf_nan=False {s[:200]!r}', got=p2, want=w2)
            if forms:
                for what, f in (('bytes', lambda: got(from_json, s.encode(), allow_partial=mode)), ('bytearray', lambda: got(from_json, bytearray(s.encode()), allow_partial=mode)),
                                ('keys', lambda: got(from_json, s, allow_partial=mode, cache_strings='keys')), ('none', lambda: got(from_json, s, allow_partial=mode, cache_strings=False)),
                                ('validate_json', lambda: got(ANY.validate_json, s, allow_partial=mode)), ('validate_json keys', lambda: got(ANYC['keys'].validate_json, s.encode(), allow_partial=mode))):
                    p2 = f()
                    if p2 != p:
                        ctx.fail(f'{label}: {what} partial={mode} {s[:200]!r}', got=p2, want=p)
    ctx.ev(want[0] + ('+' if nt else ''), (label, s) if nt else None)
    if nt and len(ctx.samples) < 3 and len(s) > 6:
        ctx.sample(s, want)


def explore(ctx):
    q = ctx.quick
    # 1. structure
    toks = ['[', ']', '{', '}', ',', ':', '"a"', '1', ' ']
    n = 6 if q else 7
    for head in ctx.split(seqs(toks, 2)):
        h = ''.join(head)
        tails = [()] if len(head) < 2 else seqs(toks, n - 2)
        for tail in tails:
            s = h + ''.join(tail)
            if '"a""a"' in s:
                continue
            judge(ctx, s, fast_ref(s), 'struct', forms=len(tail) <= 2)
    # literals and strings inside of structure, second alphabet
    toks = ['[', ']', '{"k":', '}', ',', '"', 'null', 'true', 'NaN', '-Infinity', '1.5', '"é\\n"']
    n = 4 if q else 5
    for head in ctx.split(toks):
        for tail in seqs(toks, n - 1):
            s = head + ''.join(tail)
            judge(ctx, s, fast_ref(s), 'struct2', forms=len(tail) <= 2)
    # 2. numbers
    chars = '01-+.eE9'
    n = 6 if q else 7
    for h in ctx.split(seqs(chars, 2)):
        for tail in ([()] if len(h) < 2 else seqs(chars, n - 2)):
            s = ''.join(h) + ''.join(tail)
            judge(ctx, s, fast_ref(s), 'num', forms=len(tail) <= 2, partial=len(tail) <= 3)
            if len(tail) <= 2:
                for s2 in (f'[{s}', f'[{s}]', f'[0,{s} ', f'{{"a":{s}', f'{{"a":{s}}}', f'[{s}]]', f'{s} ', f' {s}', f'{s}x'):
                    judge(ctx, s2, fast_ref(s2), 'num-in')
    # hard floats, big ints
    for s in ctx.split(hard_numbers()):
        for t in (s, '-' + s, f'[{s}]', f'[1,{s},2]', f'{{"a":{s}}}', f'[{s}', f'[-{s},'):
            judge(ctx, t, ref(t), 'hard', forms=True)
    # 3. words: every prefix, every one-character mutation
    words = ['null', 'true', 'false', 'NaN', 'Infinity', '-Infinity']
    for w in ctx.split(words):
        texts = {w[:k] for k in range(len(w) + 1)}
        for k in range(len(w) + 1):
            for c in 'nNuUtTaIi-x0 ,]}"\x00é':
                texts |= {w[:k] + c + w[k:], w[:k] + c + w[k + 1:], w[:k] + w[k + 1:], w[:k] + c}
        for t in sorted(texts):
            for s in (t, f'[{t}', f'[{t}]', f'{{"a":{t}', f'{{"a":{t}}}', f'[1,{t}', f' {t} '):
                judge(ctx, s, ref(s), 'word', forms=True)
    # 4. strings
    for u in ctx.split(range(0, 0x10000, 64)):
        for k in range(u, u + 64):
            for s in (f'"\\u{k:04x}"', f'"x\\u{k:04X}y"'):
                judge(ctx, s, ref(s), 'uesc', forms=(k % 64 in (0, 63)))
            if not 0xD800 <= k < 0xE000 and k >= 32 and chr(k) not in '"\\':
                s = f'"{chr(k)}"'
                judge(ctx, s, ('ok', ('str', chr(k))), 'raw', forms=(k % 64 in (0, 63) or k < 256))
    edges = [0, 0x41, 0xD7FF, 0xD800, 0xD801, 0xD83D, 0xDBFF, 0xDC00, 0xDC01, 0xDE00, 0xDFFF, 0xE000, 0xFFFF]
    for a in ctx.split(edges):
        for b in edges:
            for mid in ('', 'x', '\\n'):
                t = f'\\u{a:04x}{mid}\\u{b:04x}'
                for k in range(len(t) + 1):
                    for pre, post in (('"', ''), ('"', '"'), ('["', ''), ('["', '"]'), ('{"a":"', ''), ('{"', '":1}'), ('{"', ''), ('["q","z', '')):
                        s = pre + t[:k] + post
                        judge(ctx, s, ref(s), 'surrogate', forms=True)
    for c in ctx.split(range(0, 256)):
        for t in (f'\\{chr(c)}', f'a\\{chr(c)}b', f'{chr(c)}', f'a{chr(c)}', f'\\u00{chr(c)}0', f'\\u{chr(c)}', f'\\\\{chr(c)}', 'abcdefghijklmnopqrst' + chr(c) + 'abcdefghijklmnopqrst'):
            for pre, post in (('"', '"'), ('"', ''), ('["', '"]'), ('["', ''), ('{"', '":1}'), ('{"a":"', '"'), ('', ''), ('[1,', ']'), ('[', '')):
                s = pre + t + post
                judge(ctx, s, ref(s), 'char', forms=True)
    # strings around the vector width and cache bounds, with an odd character at every position
    for n_ in ctx.split(list(range(0, 70)) + [127, 128, 129, 255, 256, 257]):
        for odd in ('', '"', '\\n', '\\u00e9', 'é', '\x1f', '\U0001f600', '\\"'):
            for p in range(0, n_ + 1, 1 if n_ < 70 else 16):
                body = 'a' * p + odd + 'b' * (n_ - p)
                for s in (f'"{body}"', f'["{body}"', f'{{"{body}":1,"{body}":2}}'):
                    judge(ctx, s, ref(s), 'len', forms=p % 8 == 0)
    # 5. bytes
    cont = [0x00, 0x22, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xFF]
    lead = [0x00, 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF]
    for l in ctx.split(lead):
        for tail in seqs(cont, 2 if q else 3):
            b = bytes((l,) + tail)
            for pre, post in ((b'"', b'"'), (b'["', b'"]'), (b'{"', b'":1}'), (b'"abcdefghijklmnopqrstuvwxyz', b'"'), (b'', b'1'), (b'1', b''), (b'[1', b']')):
                raw_ = pre + b + post
                try:
                    s = raw_.decode('utf-8')
                    w = ref(s)
                except UnicodeDecodeError:
                    w = ('bad',)
                w = w if w[0] == 'ok' else ('bad',)
                for x in (raw_, bytearray(raw_)):
                    for f in (from_json, ANY.validate_json):
                        g = got(f, x)
                        if g != w:
                            ctx.fail(f'utf8 {x!r}', got=g, want=w)
                for mode in (True, 'trailing-strings'):
                    g = got(from_json, raw_, allow_partial=mode)
                    if (w[0] == 'ok' and g != w) or g[0] not in ('ok', 'bad'):
                        ctx.fail(f'utf8 partial={mode} {raw_!r}', got=g, want=w)
                ctx.ev('utf8-' + w[0], raw_ if w[0] == 'ok' else None)
    # 6. depth
    for d in ctx.split(list(range(180, 199)) + list(range(204, 224)) + [1000, 10000]):
        for o, c in (('[', ']'), ('{"a":', '}'), ('[{"a":', '}]')):
            k = d // len(o.replace('"a":', '')) if o != '{"a":' else d
            for inner in ('1', '', '[]'):
                if inner == '' and o != '[':
                    continue
                for s in (o * k + inner + c * k, o * k + inner, o * k + inner + c * (k - 1)):
                    w = ('bad',) if d >= 1000 else ref(s)
                    g = got(from_json, s)
                    if g != (w if w[0] == 'ok' else ('bad',)):
                        ctx.fail(f'depth {d} {o} {inner}', got=g[0], want=w[0])
                    g = got(ANY.validate_json, s)
                    if g != (w if w[0] == 'ok' else ('bad',)):
                        ctx.fail(f'depth v {d} {o} {inner}', got=g[0], want=w[0])
                    if d < 1000:
                        wp = ref(s, partial=True)
                        if wp[0] == 'ok':
                            g = got(from_json, s, allow_partial=True)
                            if g != wp:
                                ctx.fail(f'depth p {d} {o} {inner}', got=g[0], want=wp[0])
                    ctx.ev('depth-' + w[0], (d, o, inner, len(s)))
    # 7. every truncation of richer documents
    docs = ['{"a":[1,{"b":"x\\u00e9y","c":null}],"d":-1.5e+3,"a":"again"}', '[true,false,null,[],{},"",0,-0,0.0,-0.0]', ' { "k" : [ 1 , 2.5 , "s\\\\" ] , "k2" : { } } ',
            '["\\ud83d\\ude00", "é\U0001f600", {"\\n":"\\t"}]', '[[[["deep"]]],{"x":{"y":{"z":[NaN,Infinity,-Infinity]}}}]', '{"a":1,"b":{"a":2,"a":3},"a":{"a":4}}']
    for d in ctx.split(docs):
        for k in range(len(d) + 1):
            judge(ctx, d[:k], ref(d[:k]), 'trunc', forms=True)
            for c in ',:[]{}"1-\\ntx \x00':
                judge(ctx, d[:k] + c + d[k:], ref(d[:k] + c + d[k:]), 'insert')
                judge(ctx, d[:k] + c, ref(d[:k] + c), 'trunc+1')
            judge(ctx, d[:k] + d[k + 1:], ref(d[:k] + d[k + 1:]), 'delete')
    # 8. histories: the string cache holds what earlier documents put in it
    strs = ['', 'a', 'ab', 'é', '\\n', '\\u0000', 'x' * 63, 'x' * 64, 'x' * 65, '1']
    for a in ctx.split(strs):
        for b in strs:
            for c in strs:
                for m in ('all', 'keys', 'none'):
                    for t in (a, b, c):
                        s = f'{{"{t}":"{t}","k":["{a}","{t}"]}}'
                        g = got(from_json, s, cache_strings=m)
                        w = fast_ref(s)
                        if g != w:
                            ctx.fail(f'cache history {m} {s[:100]}', got=g, want=w)
                        ctx.ev('cache', (a, b, c, t, m))


def hard_numbers():
    for k in list(range(15, 25)) + [38, 39, 77, 100, 4298, 4299, 4300, 4301, 5000]:
        for dgt in ('1' + '0' * (k - 1), '9' * k, '1' + '0' * (k - 2) + '1'):
            yield dgt
            if k < 200:
                yield dgt + '.0'
                yield dgt + 'e0'
                yield dgt + '.5e-3'
                yield '0.' + dgt
    for p in (8, 16, 31, 32, 53, 62, 63, 64, 65, 127, 128):
        for d in (-2, -1, 0, 1, 2):
            yield str(2 ** p + d)
    yield from ['0.1', '0.2', '0.3', '1e22', '1e23', '9007199254740993.0', '9007199254740993', '5e-324', '2.4703282292062327e-324', '2.4703282292062328e-324',
                '2.2250738585072011e-308', '2.2250738585072014e-308', '1.7976931348623157e308', '1.7976931348623158e308', '1.7976931348623159e308', '1e308', '1e309', '1e400', '1e-400',
                '0e999999999', '1e99999999999999999999', '1e-99999999999999999999', '0.000000000000000000000000000000000000001', '123456789012345678901234567890.5',
                '8.5e0', '1E5', '1E+05', '1e-05', '0.5000000000000000000000000000000000001', '6.02214076e23', '179769313486231580793728971405301e276', '3.141592653589793238462643383279']
