from ccnpy.core.Name import Name, NameComponent

TOKENS = [b'a', b'b', b'/', b'Name=', b'/Name=', b'~', b"'", b'ChunkId=', b'1', b'\x00', b'\x01', b'\xff', b'\\xff', b'', b', ']
def confusable(v):
    """two names that print alike (or nearly), and may be the same"""
    p = Name([NameComponent(v.choice('type', [1, 1, 1, 2, 5, 16]), b''.join(v.choice('token', TOKENS) for _ in range(v.small('tokens', 0, 3)))) for _ in range(v.small('components', 1, 3))])
    text = v.choice('print', [lambda: p.as_uri()[len('ccnx:/'):], lambda: '/'.join(c.value().decode('latin1') if isinstance(c.value(), bytes) else bytes(c.value()).decode('latin1') for c in (p.component(i) for i in range(p.count())))])()
    cut = v.choice('split', ['none', '/', '/Name=', 'drop empty'])
    parts = [text] if cut == 'none' else [x for x in text.split('/') if x] if cut == 'drop empty' else text.split(cut)
    q = Name([NameComponent(v.choice('other type', [1, 1, 1, 5]), x.removeprefix('Name=').encode(v.choice('encoding', ['utf-8', 'latin1']), errors='replace')) for x in parts])
    return p, q
