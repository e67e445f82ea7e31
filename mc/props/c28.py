"""C28: URL normalisation, accessors, constraints and comparison."""
import copy, json, pickle
from mc.lib import *
from pydantic_core import Url, MultiHostUrl, to_json, to_jsonable_python

LEVEL = 'exploration'
RULE = ('every URL text composed of component alphabets (scheme, separator, credentials, hosts, port, path, query, fragment; unicode, IP, escaped and malformed forms) '
        'and every one-edit change of base texts, as str, str subclass, JSON, strings mode and Url/MultiHostUrl objects; every accepted URL is recomposed from its accessors, '
        'revalidated, rebuilt, copied, serialized and compared with the others; every constraint setting is compared with a reference that works on the unconstrained result')
ASSUME = ['which texts are URLs, and their normal form, is what the WHATWG parser (the url crate) says; judged are the laws its results obey',
          'the port accessor shows the known default of the scheme when the URL has none',
          'default_port of a multi-host URL applies to the last host',
          'tabs, newlines and surrounding spaces, which the WHATWG parser ignores, may be rejected by multi-host-url before or within the scheme']
BOUNDS = {'quick': '5 x products of 3-8 values per component, one-edit neighbourhoods of 14 base texts over 20 characters, pairwise comparison of 150 URLs',
          'thorough': 'larger component alphabets, two-edit neighbourhoods, pairwise comparison of 1200 URLs, all constraint combinations on every URL'}

KNOWN = {'http': 80, 'https': 443, 'ws': 80, 'wss': 443, 'ftp': 21}
SPECIAL = set(KNOWN) | {'file'}

V = {}
def val(kind, **kw):
    key = kind + repr(sorted(kw.items()))
    if key not in V: V[key] = SchemaValidator({'type': kind, **kw})
    return V[key]


CLS = {'url': Url, 'multi-host-url': MultiHostUrl}


class SubStr(str): pass


def run(f, *a, **k):
    try: return ('ok', f(*a, **k))
    except ValidationError as e:
        d = e.errors(include_url=False)[0]
        return ('err', d['type'], d['msg'])
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
        return ('exc', f'{type(e).__name__}: {e}')


def show(r):
    return (r[0], str(r[1]), [tuple(sorted(h.items(), key=str)) for h in r[1].hosts()] if isinstance(r[1], MultiHostUrl) else None) if r[0] == 'ok' else r


def hp(scheme, username, password, host, port):
    """the authority part of one host, as it stands in the normalised text"""
    s = ''
    if username is not None or password is not None: s += (username or '') + (':' + password if password is not None else '') + '@'
    s += host or ''
    if port is not None and port != KNOWN.get(scheme): s += f':{port}'
    return s


def recompose(u):
    """texts the accessors allow"""
    hosts = u.hosts() if isinstance(u, MultiHostUrl) else ([{'username': u.username, 'password': u.password, 'host': u.host, 'port': u.port}] if u.host is not None else [])
    rest = (u.path or '') + ('' if u.query is None else '?' + u.query) + ('' if u.fragment is None else '#' + u.fragment)
    if hosts: return [u.scheme + '://' + ','.join(hp(u.scheme, **h) for h in hosts) + rest]
    return [u.scheme + ':' + rest, u.scheme + '://' + rest, u.scheme + ':/.' + rest]


def laws(ctx, kind, u, text):
    info = {'text': text, 'url': str(u)}
    cls, v = CLS[kind], val(kind)
    s = str(u)
    ctx.check(type(u) is cls, f'{kind}: class', **info)
    ctx.check(s in recompose(u), f'{kind}: accessors do not recompose to the URL', parts=recompose(u), **info)
    # idempotence, through every way in
    for how, got in (('str', run(v.validate_python, s)), ('class', run(cls, s)), ('json', run(v.validate_json, json.dumps(s))), ('strings', run(v.validate_strings, s)),
                     ('object', run(v.validate_python, u)), ('class of object', run(cls, u)), ('copy', run(copy.copy, u)), ('deepcopy', run(copy.deepcopy, u)),
                     ('pickle', run(lambda: pickle.loads(pickle.dumps(u)))), ('unicode', run(cls, u.unicode_string()))):
        ok = got[0] == 'ok' and got[1] == u and not (got[1] != u) and str(got[1]) == s and hash(got[1]) == hash(u) and recompose(got[1]) == recompose(u) and got[1].unicode_string() == u.unicode_string() \
            and got[1] <= u and got[1] >= u and not got[1] < u and not got[1] > u
        pathonly = kind == 'multi-host-url' and not u.hosts() and ',' in (u.path or '').lstrip('/').split('/')[0] and got[:2] == ('err', 'url_parsing')
        ctx.check(ok, f'commas in the path of a host-less multi-host-url: {how} refused' if pathonly else f'{kind}: {how} differs', got=str(show(got)), parts=recompose(u), **info)
    ctx.check(bool(u) and repr(u) == f"{cls.__name__}('{s}')", f'{kind}: repr', got=repr(u), **info)
    # serialized text
    ss = SER[kind]
    texts = [ss.to_python(u, mode='json'), json.loads(ss.to_json(u)), json.loads(to_json(u)), to_jsonable_python(u), next(iter(json.loads(SERD[kind].to_json({u: 1})))), next(iter(to_jsonable_python({u: 1})))]
    ctx.check(texts == [s] * 6, f'{kind}: serialized text', got=texts, **info)
    # query
    if u.query is None: ctx.check(u.query_params() == [], f'{kind}: query_params without query', **info)
    else:
        from urllib.parse import parse_qsl
        ctx.check(u.query_params() == parse_qsl(u.query, keep_blank_values=True), f'{kind}: query_params', got=u.query_params(), want=parse_qsl(u.query, keep_blank_values=True), **info)
    # build
    path = u.path
    if path is not None: path = path[1:] if path.startswith('/') else None
    kw = {'scheme': u.scheme, 'query': u.query, 'fragment': u.fragment}
    if path is not None: kw['path'] = path
    if kind == 'url':
        if u.host:
            got = run(Url.build, host=u.host, username=u.username, password=u.password, port=u.port, **kw)
            ctx.check(got[0] == 'ok' and got[1] == u and str(got[1]) == s, 'url: build differs', got=str(show(got)), **info)
        uh = u.unicode_host()
        if u.host is None: ctx.check(uh is None, 'url: unicode_host without host', **info)
        else:
            labels = u.host.split('.')
            want = '.'.join(l[4:].encode().decode('punycode') if l.startswith('xn--') and u.scheme in SPECIAL else l for l in labels)
            ctx.check(uh == want, 'url: unicode_host', got=uh, want=want, **info)
            wants = s.replace('://' + hp(u.scheme, u.username, u.password, u.host, u.port), '://' + hp(u.scheme, u.username, u.password, want, u.port), 1)
            ctx.check(u.unicode_string() == wants, 'url: unicode_string', got=u.unicode_string(), want=wants, **info)
    else:
        hosts = u.hosts()
        if hosts and all(h['host'] for h in hosts):
            got = run(MultiHostUrl.build, hosts=hosts, **kw)
            ctx.check(got[0] == 'ok' and got[1] == u and str(got[1]) == s and got[1].hosts() == hosts, 'multi-host-url: build differs', got=str(show(got)), **info)
            if len(hosts) == 1:
                got = run(MultiHostUrl.build, **hosts[0], **kw)
                ctx.check(got[0] == 'ok' and got[1] == u and str(got[1]) == s, 'multi-host-url: single build differs', got=str(show(got)), **info)
        # each host is what it is alone, and the last one carries the rest
        if len(hosts) > 1:
            for i, h in enumerate(hosts):
                one = run(Url, u.scheme + '://' + hp(u.scheme, **h))
                ctx.check(one[0] == 'ok' and {'username': one[1].username, 'password': one[1].password, 'host': one[1].host, 'port': one[1].port} == h, 'multi-host-url: host differs from a single one', got=str(show(one)), host=h, **info)
            un = ','.join(hp(u.scheme, h['username'], h['password'], Url(u.scheme + '://' + hp(u.scheme, **h)).unicode_host(), h['port']) for h in hosts)
            wants = recompose(u)[0].replace(','.join(hp(u.scheme, **h) for h in hosts), un, 1)
            ctx.check(u.unicode_string() == wants, 'multi-host-url: unicode_string', got=u.unicode_string(), want=wants, **info)


SER = {k: SchemaSerializer({'type': k}) for k in CLS}
SERD = {k: SchemaSerializer({'type': 'dict', 'keys_schema': {'type': k}}) for k in CLS}


def agree(ctx, kind, text):
    """all ways of giving one text agree; returns the result"""
    v = val(kind)
    base = run(v.validate_python, text)
    if base[0] == 'exc':
        ctx.fail(f'{kind}: raises', text=text, got=base[1])
        return base
    for how, got in (('class', run(CLS[kind], text)), ('json', run(v.validate_json, json.dumps(text))), ('strings', run(v.validate_strings, text)), ('subclass', run(v.validate_python, SubStr(text)))):
        ctx.check(show(got) == show(base), f'{kind}: {how} disagrees', text=text, got=str(show(got)), want=str(show(base)))
    st = run(v.validate_python, text, strict=True)
    if st[0] == 'ok': ctx.check(show(st) == show(base), f'{kind}: strict gives another result', text=text, got=str(show(st)), want=str(show(base)))
    else: ctx.check(st[0] == 'err' and (base[0] == 'err' and st[1] == 'url_parsing' or st[1] == 'url_syntax_violation'), f'{kind}: strict error', text=text, got=str(st), want=str(show(base)))
    ok = run(v.isinstance_python, text)
    ctx.check(ok == ('ok', base[0] == 'ok'), f'{kind}: isinstance disagrees', text=text)
    return base


def one(ctx, text, seen):
    single = agree(ctx, 'url', text)
    multi = agree(ctx, 'multi-host-url', text)
    for kind, r in (('url', single), ('multi-host-url', multi)):
        if r[0] == 'ok':
            laws(ctx, kind, r[1], text)
            seen.setdefault((kind, str(r[1])), r[1])
            ctx.ev('accepted ' + kind, (kind, str(r[1])))
        else:
            ctx.check(r[0] == 'err' and r[1] == 'url_parsing', f'{kind}: error type', text=text, got=str(r))
            ctx.ev('rejected ' + kind, (kind, text))
    # with one host both kinds say the same
    if single[0] == 'ok' and ',' not in str(single[1]).split('?')[0].split('#')[0]:
        same = multi[0] == 'ok' and str(multi[1]) == str(single[1]) and multi[1].unicode_string() == single[1].unicode_string()
        if not re.match(r'[\x00-\x20]*[A-Za-z][A-Za-z0-9+.-]*[\t\r\n]', text): ctx.check(same, 'url and multi-host-url disagree', text=text, url=str(show(single)), multi=str(show(multi)))
    if multi[0] == 'ok' and len(multi[1].hosts()) <= 1: ctx.check(single[0] == 'ok' and str(single[1]) == str(multi[1]), 'multi-host-url accepts a single host url rejects', text=text, url=str(show(single)), multi=str(show(multi)))
    # one kind of object given to the other kind
    for a, b, r in (('url', 'multi-host-url', single), ('multi-host-url', 'url', multi)):
        if r[0] == 'ok':
            got, want = run(val(b).validate_python, r[1]), run(val(b).validate_python, str(r[1]))
            ctx.check(show(got) == show(want) and (got[0] != 'ok' or got[1] == want[1] and hash(got[1]) == hash(want[1])), f'{a} object to {b}: differs from its text', text=text, got=str(show(got)), want=str(show(want)))


SCHEMES = ['http', 'HTTPS', 'ws', 'ftp', 'file', 'redis', 'postgres+x', 'mailto', 'x', '1x', '']
SEPS = ['://', ':', ':/', ':///', ':\\\\', '://\t', ':/\n/']
CREDS = ['', 'u@', 'u:p@', ':p@', 'u:@', '@', 'u%40:p%3A@', '\u00fc:\u00e9@', 'a:b:c@', 'a@b@', ':@', 'xn--e@', 'u,v@']
HOSTS = ['h', 'Ex.COM', 'm\u00fcnchen.de', 'xn--mnchen-3ya.de', '127.0.0.1', '0x7f.1', '[::1]', '[1:2::3:4]', '1.2.3', '256.1.1.1', 'a b', 'a%20b', '', '-a.b-', 'a..b', '\u4f8b\u3048.\u30c6\u30b9\u30c8', 'fa\u00df.de', 'a_b', '.', 'xn--', 'a%2Cb', 'localhost']
PORTS = ['', ':80', ':443', ':0', ':65535', ':65536', ':', ':x', ':08']
PATHS = ['', '/', '/a/b', '/a/../b', '/./', '//x', '/%41%2f', '/\u00e9 "<', '/a;b=c,d', '\\a\\b', '/..', '/a,b']
QUERIES = ['', '?', '?a=1&b=2', '?a=\u00e9+x%20&&=&c', '?a?b#', "?'\"<>", '?a,b://c']
FRAGS = ['', '#', '#f\u00e9', '#a#b?c']
LISTS = ['a,b', 'a:1,b:2', 'u:p@a:80,v@b', 'a,', ',a', 'a,,b', 'm\u00fcnchen.de,[::1]:1', 'xn--mnchen-3ya.de,u:xn--x@xn--mnchen-3ya.de:9', 'A,a', ' a , b ', 'a:x,b', 'a b,c', 'a\t,b', 'localhost,b', 'a,b,c,d', 'u%2C@a,b', 'a,b@c']


def texts(quick):
    k = 1 if quick else 0
    for sc, sep, h, p in itertools.product(SCHEMES, SEPS, HOSTS + LISTS, ['', '/a?b#c']): yield sc + sep + h + p
    for sc, c, h, p in itertools.product(['http', 'redis', 'file', 'https'], CREDS, ['h', 'm\u00fcnchen.de', '[::1]', '', 'xn--mnchen-3ya.de', 'a,b', 'v:w@a,m\u00fcnchen.de'], PORTS): yield f'{sc}://{c}{h}{p}'
    for sc, h, p, q, f in itertools.product(['http', 'redis', 'file', 'mailto'], ['h', 'h:80', 'a,b:6379', ''], PATHS, QUERIES, FRAGS):
        if sc == 'mailto': yield sc + ':' + h + p + q + f
        else: yield sc + '://' + h + p + q + f
    for sc, h, p, q in itertools.product(SCHEMES, HOSTS + LISTS, PORTS, ['', '/x']): yield f'{sc}://{h}{p}{q}'
    if not quick:
        for sc, c, h, p, pa, q, f in itertools.product(['http', 'redis', 'file'], CREDS, HOSTS[:12] + LISTS[:9], PORTS[:5], PATHS[:9], QUERIES[:4], FRAGS[:3]): yield f'{sc}://{c}{h}{p}{pa}{q}{f}'


BASES = ['http://u:p@h.com:80/a?b=c#d', 'redis://u:p@h:6379/0', 'http://a,b/', 'foo://u@a:1,v@b:2/p?q', 'file:///a/b', 'mailto:a@b.c', 'https://m\u00fcnchen.de', 'http://[::1]:8/', 'foo:///p', 'foo:/p', 'http:a', 'ws:\\\\h\\p', 'foo://h', 'data:,x y']
CH = '/\\:@,?#[]. \t\n%x1-+\u00e9\u3002'


def edits(s, chars):
    yield s
    for i in range(len(s)):
        yield s[:i] + s[i + 1:]
        for c in chars:
            if c != s[i]: yield s[:i] + c + s[i + 1:]
    for i in range(len(s) + 1):
        for c in chars: yield s[:i] + c + s[i:]


def has_explicit_port(u):
    """normalised URLs never spell the default port"""
    h = u.hosts()[-1] if isinstance(u, MultiHostUrl) and u.hosts() else None
    port = h['port'] if h else getattr(u, 'port', None)
    return port is not None and port != KNOWN.get(u.scheme)


def hosts_of(u):
    return u.hosts() if isinstance(u, MultiHostUrl) else ([{'username': u.username, 'password': u.password, 'host': u.host, 'port': u.port}] if u.host is not None else [])


def ref_constrained(kind, base, inp_len, c):
    """expected result of the constrained schema, given the unconstrained one"""
    if c.get('max_length') is not None and inp_len > c['max_length']: return ('err', 'url_too_long')
    if base[0] == 'err': return ('err', base[1])
    u = base[1]
    if c.get('allowed_schemes') and u.scheme not in c['allowed_schemes']: return ('err', 'url_scheme')
    hosts = [dict(h) for h in hosts_of(u)]
    path = u.path
    if not hosts:
        if c.get('default_host'): hosts = [{'username': None, 'password': None, 'host': c['default_host'], 'port': KNOWN.get(u.scheme)}]
        elif c.get('host_required'): return ('err', 'url_parsing')
    if c.get('default_port') is not None:
        if not hosts: return ('err', 'url_parsing')
        p = hosts[-1]['port']
        if p is None or p == KNOWN.get(u.scheme): hosts[-1]['port'] = c['default_port']
    if c.get('default_path') == '' and path == '/' and u.scheme not in SPECIAL: path = None
    if c.get('default_path') and path in (None, '/'): path = c['default_path'] if c['default_path'].startswith('/') else '/' + c['default_path']
    rest = (path or '') + ('' if u.query is None else '?' + u.query) + ('' if u.fragment is None else '#' + u.fragment)
    # (without `/` after the scheme the path is opaque and cannot start with a slash)
    if not hosts: return ('ok', [str(u), u.scheme + ':' + rest, u.scheme + ':%2F' + rest[1:], u.scheme + '://' + rest])
    return ('ok', [u.scheme + '://' + ','.join(hp(u.scheme, **h) for h in hosts) + rest])


def constraint_sets(quick):
    opts = {'max_length': [None, 12, 30], 'allowed_schemes': [None, ['http', 'redis'], ['file']], 'host_required': [False, True], 'default_host': [None, 'dh'], 'default_port': [None, 6379, 80], 'default_path': [None, '/dp', '/d/e', '']}
    keys = list(opts)
    for vals in itertools.product(*opts.values()):
        d = {k: v for k, v in zip(keys, vals) if v not in (None, False)}
        if quick and len(d) > 2: continue
        yield d


CTEXTS = ['http://h', 'http://h/', 'http://h:80', 'http://h:81/p', 'https://h', 'redis://h', 'redis://h/', 'redis://', 'redis:///0', 'redis://h:1?q#f', 'redis:', 'file:///x', 'file://', 'http://u:p@h/?q', 'redis://u@h', 'http://\u00e9.de/\u00e9\u00e9', 'http://a,b', 'redis://a,b:1/x', 'redis://a:1,b',
          'redis://a:1,b:2', 'http://a/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa', 'x', '', 'mailto:a', 'http://[::1]/#x', 'foo://h/p?' + '\u00e9' * 10]


def constrained(ctx):
    for c in ctx.split(list(constraint_sets(ctx.quick))):
        for kind in CLS:
            try: v = SchemaValidator({'type': kind, **c})
            except SchemaError as e:
                ctx.fail(f'{kind}: schema not built', constraints=c, err=str(e)[:200])
                continue
            for t in CTEXTS:
                inputs = [('str', t, len(t), run(val(kind).validate_python, t))]
                for k2 in CLS:
                    r = run(CLS[k2], t)
                    if r[0] == 'ok': inputs.append((k2, r[1], len(str(r[1])), run(val(kind).validate_python, r[1])))
                for how, inp, n, base in inputs:
                    before = str(inp)
                    got = run(v.validate_python, inp)
                    want = ref_constrained(kind, base, n, c)
                    if want[0] == 'err': ok = got[0] == 'err' and got[1] == want[1]
                    else: ok = got[0] == 'ok' and str(got[1]) in want[1] and type(got[1]) is CLS[kind]
                    # a URL which cannot have a host or a port (mailto:, file: with a port) may be refused
                    if want[0] == 'ok' and got[0] == 'err' and base[0] == 'ok' and (base[1].scheme in ('mailto', 'file') or not hosts_of(base[1])) and ('default_port' in c or 'default_host' in c): ok = got[1] == 'url_parsing'
                    if base[0] == 'ok' and base[1].scheme == 'mailto' and 'default_host' in c: ok = True
                    ctx.check(ok, f'{kind}: constraint', constraints=c, given=how, text=t, got=str(show(got)), want=want)
                    ctx.check(str(inp) == before, f'{kind}: input object changed', constraints=c, text=t)
                    if got[0] == 'ok':
                        laws(ctx, kind, got[1], t)
                        if 'max_length' not in c:
                            again = run(v.validate_python, str(got[1]))
                            ctx.check(show(again) == show(got), f'{kind}: constrained result does not revalidate', constraints=c, text=t, got=str(show(again)), want=str(show(got)))
                    ctx.ev('constraint ' + got[0], (kind, repr(c), t, how))
    for ml in ctx.split(range(0, 40)):
        for t in CTEXTS:
            for kind in CLS:
                v = SchemaValidator({'type': kind, 'max_length': ml})
                got = run(v.validate_python, t)
                ctx.check((got[0] == 'err' and got[1] == 'url_too_long') == (len(t) > ml), f'{kind}: max_length', max_length=ml, text=t, length=len(t), got=str(show(got)))
                ctx.ev('length', (kind, ml, t))


def comparisons(ctx, seen):
    lst = [u for (k, s), u in sorted(seen.items())]
    n = 150 if ctx.quick else 1200
    by = {k: [u for u in lst if type(u) is CLS[k]] for k in CLS}
    for kind, us in by.items():
        us = us[::max(1, len(us) // n)]
        for a in us:
            for b in us:
                sa, sb = str(a), str(b)
                eq = a == b
                ctx.check(eq == (sa == sb), f'{kind}: equality does not follow the text', a=sa, b=sb)
                ctx.check((a != b) == (not eq) and (not eq or hash(a) == hash(b)), f'{kind}: hash or !=', a=sa, b=sb)
                key = (lambda u: str(u)) if kind == 'url' else (lambda u: u.unicode_string().encode())
                ctx.check((a < b) == (key(a) < key(b)) and (a > b) == (key(a) > key(b)) and (a <= b) == (not a > b) and (a >= b) == (not a < b), f'{kind}: order', a=sa, b=sb)
            ctx.ev('compared', None, len(us))
    for u in by['url'][:20]:
        for w in by['multi-host-url'][:20]:
            ctx.check(u != w and not u == w and run(lambda: u < w)[0] == 'exc' and u != str(u) and not u == str(u), 'url compares to another kind', a=str(u), b=str(w))


def builds(ctx):
    """clean components: build() and parsing must give exactly these parts back"""
    for sc, us, pw, h, po, pa, q, f in ctx.split(list(itertools.product(['http', 'redis', 'https'], [None, 'u'], [None, 'p'], ['h', '127.0.0.1', '[::1]', 'ex.com'], [None, 80, 1, 6379], [None, '', 'a', 'a/b'], [None, '', 'x=1'], [None, '', 'f']))):
        got = run(Url.build, scheme=sc, username=us, password=pw, host=h, port=po, path=pa, query=q, fragment=f)
        text = sc + '://' + (f"{us or ''}{':' + pw if pw else ''}@" if us or pw else '') + h + (f':{po}' if po else '') + ('' if pa is None else '/' + pa) + ('' if q is None else '?' + q) + ('' if f is None else '#' + f)
        want = run(Url, text)
        ctx.check(show(got) == show(want), 'build is not its text', text=text, got=str(show(got)), want=str(show(want)))
        if got[0] == 'ok':
            u = got[1]
            path = pa if pa is None else '/' + pa
            if path is None and sc != 'redis': path = '/'
            parts = (u.scheme, u.username, u.password, u.host, u.port, u.path, u.query, u.fragment)
            wantp = (sc, us, pw, h, po or KNOWN.get(sc), path, q, f)
            ctx.check(parts == wantp, 'build: parts', text=text, got=parts, want=wantp)
            m = run(MultiHostUrl.build, scheme=sc, username=us, password=pw, host=h, port=po, path=pa, query=q, fragment=f)
            ctx.check(m[0] == 'ok' and str(m[1]) == str(u), 'multi build of one host', text=text, got=str(show(m)))
        ctx.ev('build', text)
    hs = [{'host': 'a'}, {'host': 'b', 'port': 80}, {'host': 'c', 'username': 'u', 'password': 'p', 'port': 1}, {'host': '[::1]', 'password': 'p'}, {'host': 'd', 'username': 'u'}]
    for n in (1, 2, 3):
        for combo in ctx.split(list(itertools.product(hs, repeat=n))):
            for sc in ('redis', 'http'):
                got = run(MultiHostUrl.build, scheme=sc, hosts=list(combo), path='p', query='q')
                want = [{'username': h.get('username'), 'password': h.get('password'), 'host': h['host'], 'port': h.get('port') or KNOWN.get(sc)} for h in combo]
                ctx.check(got[0] == 'ok' and got[1].hosts() == want and (got[1].path, got[1].query, got[1].fragment) == ('/p', 'q', None), 'multi build: hosts', got=str(show(got)), want=want)
                ctx.ev('multi build', (sc, repr(combo)))


def non_strings(ctx):
    for x in ctx.split([None, 1, 1.5, b'http://h', bytearray(b'http://h'), [], {}, object(), True, 'http://h'.encode('utf-16')]):
        for kind in CLS:
            for strict in (False, True):
                got = run(val(kind).validate_python, x, strict=strict)
                if isinstance(x, (bytes, bytearray)) and not strict: continue
                ctx.check(got[0] == 'err' and got[1] == 'url_type', f'{kind}: not a string', value=repr(x), got=str(show(got)))
                ctx.ev('type', (kind, repr(x)[:20], strict))


def explore(ctx):
    seen = {}
    for t in ctx.split(list(dict.fromkeys(texts(ctx.quick)))):
        ctx.case('composed', t)
        one(ctx, t, seen)
    eds = [s for b in BASES for s in edits(b, CH)]
    if not ctx.quick: eds = eds + [s2 for b in ('http://a,b', 'foo://h', 'http:a', 'foo:/p') for s in edits(b, '/\\:@,?#\t') for s2 in edits(s, '/\\:@,?#\t')]
    for t in ctx.split(list(dict.fromkeys(eds))):
        ctx.case('edit', t)
        one(ctx, t, seen)
    constrained(ctx)
    builds(ctx)
    non_strings(ctx)
    comparisons(ctx, seen)
