"""Recorded findings (known-findings.txt): each is reproduced on the real code."""
import model


def run(prop):
    out = []
    if prop == 'C05':
        for k, r in model.UNREADABLE:
            K = model.cls(k)
            if r in K._refs and not hasattr(K(), r):
                out.append('%s lists the reference %r, which instances do not have' % (k, r))
    if prop in ('C01', 'C02', 'C03', 'C04', 'C08', 'C13'):
        for k, r in sorted(model.CLASH):
            _, ref = model.find_ref(k, r)
            base = model.CLASSES[k]['bases'][0]
            _, bref = model.find_ref(base, r)
            if prop == 'C04':
                x = model.cls(ref[2])()
                o = model.cls(k)(**{r: [x]})
                if list(getattr(o, r)) != [x]:
                    out.append('%s(%s=[x]) loses x: the base class declares a reference of the same name and resets the shared list' % (k, r))
            else:
                o, x = model.cls(k)(), model.cls(ref[2])()
                inv = bref[3]
                q = model.find_ref(ref[2], inv)[1]
                if q[1]:
                    getattr(x, 'add' + inv)(o)
                else:
                    setattr(x, inv, o)
                own = getattr(x, ref[3])
                if x in getattr(o, r) and (own is not o and (not isinstance(own, list) or o not in own)):
                    out.append('%s.%s and %s.%s share storage: after linking x.%s to an instance o, o.%s lists x but x.%s does not refer to o' % (k, r, base, r, inv, r, ref[3]))
    return out
