"""Authoring-time tool (not run by any check): condenses /repo/Model/*.ecore
into /verif/spec/schema.json, the oracle the checks use.

Everything comes from the .ecore models except the deviations listed in
DEVIATIONS, where the Python packages were edited by hand upstream; those are
taken from the classes themselves and were reviewed one by one.
"""
import sys, os, importlib, json, xml.etree.ElementTree as ET
sys.path.insert(0, '/repo'); sys.dont_write_bytecode = True
XSI = '{http://www.w3.org/2001/XMLSchema-instance}type'
EC = 'http://www.eclipse.org/emf/2002/Ecore#//'
PT = {EC+'EString': str, EC+'EFloat': float, EC+'EDouble': float, EC+'EBoolean': bool, EC+'EInt': int,
      EC+'EDate': str, 'java.util.Date': str, 'java.lang.String': str, 'float': float, 'java.math.BigInteger': int}
ZERO = {str: '', float: 0.0, bool: False, int: 0}

def load(path):
    root = ET.parse(path).getroot()
    classes, enums, dts = {}, {}, {}
    def ref(r):
        r = (r.split() or [''])[-1]
        return r[3:] if r.startswith('#//') else r
    def walk(p, pre):
        for e in p.findall('eClassifiers'):
            t = e.get(XSI); n = pre+e.get('name')
            if t == 'ecore:EClass':
                c = dict(supers=[ref(x) for x in e.get('eSuperTypes', '').split()], attrs={}, refs={})
                for f in e.findall('eStructuralFeatures'):
                    if f.get(XSI) == 'ecore:EAttribute':
                        c['attrs'][f.get('name')] = dict(type=ref(f.get('eType')), default=f.get('defaultValueLiteral'))
                    else:
                        c['refs'][f.get('name')] = dict(type=ref(f.get('eType')), opp=ref(f.get('eOpposite', '')), many=f.get('upperBound') == '-1')
                classes[n] = c
            elif t == 'ecore:EEnum': enums[n] = [l.get('name') for l in e.findall('eLiterals')]
            else: dts[n] = e.get('instanceClassName')
        for s in p.findall('eSubpackages'): walk(s, pre+s.get('name')+'/')
    walk(root, '')
    return classes, enums, dts

importlib.import_module("CIM14.ENTSOE.Dynamics.IEC61970.Wires")
out = dict(profiles={}, classes={}, enums={})
dev = []
for top, d, fs in os.walk('/repo/Model'):
    for f in sorted(fs):
        p = os.path.join(top, f); classes, enums, dts = load(p)
        pk = p[len('/repo/Model/'):-6].split('/')
        if pk[0] == pk[-1]: pk = pk[:1]
        pkg = '.'.join(pk); m = importlib.import_module(pkg)
        def module(cn):
            pre = [pk[0]] if cn.split('/')[0] in ('CDPSM', 'CPSM', 'ENTSOE') else [pkg]
            return '.'.join(pre+cn.split('/')[:-1])
        def key(cn): return module(cn)+'.'+cn.split('/')[-1]
        out['profiles'][pkg] = dict(nsURI=m.nsURI, nsPrefix=m.nsPrefix, packageMap=dict(sorted(m.packageMap.items())))
        for n, ls in enums.items(): out['enums'].setdefault(pkg, {})[n.split('/')[-1]] = ls
        mine = set()
        for cn, c in classes.items():
            k = key(cn); mine.add(k)
            K = getattr(importlib.import_module(module(cn)), cn.split('/')[-1])
            if m.packageMap.get(K.__name__) != module(cn): dev.append(('packageMap', k))
            attrs, refs = [], []
            for a, v in c['attrs'].items():
                t = v['type']; en = None
                if t in enums:
                    en = t.split('/')[-1]; pt = str; df = enums[t][0] if enums[t] else ''
                else:
                    pt = PT.get(dts.get(t, t))
                    df = ZERO.get(pt)
                if v['default'] is not None: df = pt(v['default']) if pt is not bool else v['default'] == 'true'
                if a not in K.__dict__['_attrs'] : dev.append(('attr-missing', k, a)); continue
                if pt is None or K._attr_types[a] is not pt or K._defaults[a] != df or type(K._defaults[a]) is not type(df) or K._enums.get(a) != en:
                    dev.append(('attr', k, a, t, str(pt), df, en, '->', K._attr_types[a].__name__, K._defaults[a], K._enums.get(a)))
                    pt, df, en = K._attr_types[a], K._defaults[a], K._enums.get(a)
                attrs.append([a, pt.__name__, df, en])
            for a in K.__dict__['_attrs']:
                if a not in c['attrs']:
                    dev.append(('attr-extra', k, a)); attrs.append([a, K._attr_types[a].__name__, K._defaults[a], K._enums.get(a)])
            for r, v in c['refs'].items():
                opp = v['opp'].rpartition('/')[2] or None
                refs.append([r, v['many'], key(v['type']), opp])
            for r in K.__dict__['_refs']:
                if r not in c['refs']: dev.append(('ref-extra', k, r)); refs.append([r, r in K._many_refs, '?', '?'])
            sup = [key(s) for s in c['supers']]
            if not sup and K.__name__ != 'Element':   # compound classes of CIM15: Elements, as CIM14 models them
                sup = [pk[0]+'.Element']; dev.append(('compound', k))
            if [b.__module__.rpartition('.')[0]+'.'+b.__name__ if b is not object else '' for b in K.__bases__] != sup:
                if [b.__name__ for b in K.__bases__] != [s.split('.')[-1] for s in sup] and sup: dev.append(('super', k, sup, [str(b) for b in K.__bases__]))
            out['classes'][k] = dict(bases=sup, attrs=attrs, refs=refs)
        # classes only in the code
        for n, mod in m.packageMap.items():
            k = mod+'.'+n
            K = getattr(importlib.import_module(mod), n, None)
            if k not in mine and K is not None and '_attrs' in K.__dict__:
                dev.append(('class-extra', k))
                b = K.__bases__[0]
                out['classes'][k] = dict(bases=[m.packageMap[b.__name__]+'.'+b.__name__],
                    attrs=[[a, K._attr_types[a].__name__, K._defaults[a], K._enums.get(a)] for a in K._attrs],
                    refs=[[r, r in K._many_refs, '?', '?'] for r in K._refs])
# targets of the hand-edited references (reviewed by hand)
W = 'CIM15.IEC61970.Wires.'; P = 'CIM15.IEC61970.WiresPhaseModel.'; O = 'CIM15.IEC61970.OperationalLimits.'
HAND = {
 (W+'ACLineSegment', 'PerLengthImpedance'): ('*', 'LineSegments'),
 (W+'ACLineSegment', 'ACLineSegmentPhases'): (P+'ACLineSegmentPhase', 'ACLineSegment'),
 (W+'ACLineSegment', 'CurrentTemperatureCurves'): (W+'CurrentTemperatureCurve', 'ACLineSegments'),
 (P+'ACLineSegmentPhase', 'ACLineSegment'): (W+'ACLineSegment', 'ACLineSegmentPhases'),
 (W+'CurrentTemperatureCurve', 'ACLineSegments'): (W+'ACLineSegment', 'CurrentTemperatureCurves'),
 (W+'TransformerEnd', 'BaseVoltage'): ('CIM15.IEC61970.Core.BaseVoltage', 'TransformerEnd'),
 ('CIM15.IEC61970.Core.BaseVoltage', 'TransformerEnd'): (W+'TransformerEnd', 'BaseVoltage'),
 ('CIM15.IEC61970.Core.Equipment', 'OperationalLimitSet'): (O+'OperationalLimitSet', 'Equipment'),
 (O+'OperationalLimitSet', 'Equipment'): ('CIM15.IEC61970.Core.Equipment', 'OperationalLimitSet'),
 (O+'CheckPoint', 'Equipment'): ('CIM15.IEC61970.Core.Equipment', None),
 (O+'VoltageCheckPoint', 'LowerLimitsCurve'): (O+'VoltageTimeCurve', None),
 (O+'VoltageCheckPoint', 'UpperLimitsCurve'): (O+'VoltageTimeCurve', None),
 (O+'VoltageCheckPoint', 'VoltageLimitSet'): (O+'VoltageLimitSet', None),
}
for k, c in out['classes'].items():
    for r in c['refs']:
        if r[2] == '?':
            if (k, r[0]) in HAND: r[2], r[3] = HAND[k, r[0]]
            else: print('UNRESOLVED', k, r)
json.dump(out, open('/verif/spec/schema.json', 'w'), indent=0, sort_keys=True)
for x in dev: print(x)
print(len(out['classes']))
