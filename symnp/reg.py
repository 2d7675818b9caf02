"""Registry of harnesses."""
HARNESSES = {}      # (prop, name) -> dict


def harness(prop, quick=({},), thorough=None, name=None, stubs=(), **opts):
    """quick/thorough: lists of keyword configurations (bounds) for the harness.
    thorough runs the quick ones as well."""
    def deco(f):
        n = name or f.__name__
        q = [dict(c) for c in quick]
        t = q + [dict(c) for c in (thorough or ()) if dict(c) not in q]
        HARNESSES[(prop, n)] = dict(prop=prop, name=n, fn=f, quick=q, thorough=t, opts=opts, stubs=list(stubs),
                                    doc=(f.__doc__ or '').strip())
        return f
    return deco
