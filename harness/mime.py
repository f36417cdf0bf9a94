"""multipart bodies, decoded by RFC 7578 (quotes and line breaks of names percent-encoded, as HTML does)"""


def esc(t):
    return t.replace('"', '%22').replace('\r', '%0D').replace('\n', '%0A')


def parts_of(S, req, encoding='utf-8'):
    ct = req.header['Content-Type']
    pre = 'multipart/form-data; boundary='
    S.check(ct.startswith(pre), 'the Content-Type names no boundary')
    b = ct[len(pre):].encode('ascii')
    S.check(0 < len(b) <= 70, 'the boundary has no allowed length')
    d = req.data
    S.check(isinstance(d, bytes), 'the body is not bytes')
    segs = (b'\r\n' + d).split(b'\r\n--' + b)
    S.check(S.same(segs[0], b''), 'there is something before the first boundary')
    S.check(S.any(S.same(segs[-1], b'--\r\n'), S.same(segs[-1], b'--')), 'the closing boundary is missing')
    out = []
    for seg in segs[1:-1]:
        S.check(seg[:2] == b'\r\n', 'a boundary is not followed by a line break')
        head, sep, body = seg[2:].partition(b'\r\n\r\n')
        S.check(sep == b'\r\n\r\n', 'a part has no header section')
        hs = {}
        for line in head.split(b'\r\n'):
            k, s, v = line.partition(b': ')
            S.check(s == b': ', 'a part header has no value')
            k = k.lower()
            S.check(k not in hs, 'a part header is there twice')
            hs[k] = v.decode(encoding)
        cd = hs.pop(b'content-disposition')
        S.check(cd.startswith('form-data; '), 'a part is no form-data')
        ps = {}
        rest = cd[len('form-data; '):]
        while len(rest):
            k, s, r = rest.partition('="')
            v, s2, rest = r.partition('"')
            S.check(S.all(s == '="', s2 == '"'), 'a name is not quoted')
            S.check(k not in ps, 'a name is there twice')
            ps[k] = v
            if len(rest):
                S.check(rest.startswith('; '), 'parameters are not separated')
                rest = rest[2:]
        out.append((ps, hs, body))
    return out


def expect(S, got, want):
    S.check(len(got) == len(want), 'parts are lost or invented')
    for g, (name, filename, hs, body) in zip(got, want):
        ps = {'name': esc(name)}
        if filename is not None:
            ps['filename'] = esc(filename)
        S.check(S.same(g[0], ps), 'a part has another name or file name')
        S.check(S.same(g[1], hs), 'a part has other headers')
        S.check(S.same(g[2], body), 'a part has another content')
