#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, sys
PROOF = sys.argv[1].split(',') if len(sys.argv) > 1 else []
T = dict(
  acc='contracts on every accessor, obligations from the AST of the real functions (loop invariants inferred and checked), discharged by z3',
  ground='contracts over constants: ground obligations by evaluation of the real class bodies (complete, finite)',
  ctor='contracts on every generated __init__ and the whole super().__init__ chain of each class, obligations from the AST of the real functions by guarded symbolic execution, discharged by state enumeration',
  rdr='contract on cimread and its helpers (loop invariants over the element stream, forking symbolic execution of the AST of the real functions with symbolic strings), obligations discharged per class of the schema',
  seg='contracts on the views of a line segment over the per-length-impedance state, symbolic execution of the real functions, refinement obligations discharged by z3 and evaluation',
  xml='object invariant of XMLWriter over abstract states (open flag, tag stack, buffers) and contracts on its methods and escape functions, symbolic execution of the AST of the real methods with symbolic strings, the written text read back by an XML automaton, loops by invariant',
 wrt='contract on cimwrite per class over a guarded symbolic object map (every attribute, enumeration and reference symbolically set or unset), forking symbolic execution of the AST of the real function, obligations discharged per class of the schema',
 rt='lemma over the contracts of writer, XML writer, reader, constructors and setters: link obligations by evaluation and z3, every contract it uses re-discharged from the source in the same run',
 pp='contracts on indent and xmlpp (recursion by the function\'s own contract, loop over children by invariant, ghost originals of text and tail), symbolic execution of the AST of the real functions, z3')
W = 'Assumed: ElementTree iterparse contract, well-formed rdf:ID/about, lexically valid numbers. Trusted: PyVC. A failed obligation is reported with a replayed document or marked no-failing-input-found.'
NOTE = {
 'C01': 'Proof for every to-one setter on all heaps. Trusted: PyVC semantics of the Python subset, z3. Redeclared references excluded (known findings).',
 'C02': 'Proof for every add/remove method on all heaps and argument lists; remove assumes distinct, linked arguments. Trusted: PyVC, z3.',
 'C03': 'Proof for every list setter on all heaps and sequences (including aliases of the own list). Trusted: PyVC, z3.',
 'C04': 'Proof for every class and every subset of keyword arguments. Assumed: given attribute values are of the declared type or None; classes with redeclared references excluded (known findings). Trusted: PyVC.',
 'C05': 'Complete: every class, attribute, reference and map entry is evaluated. Trusted: spec/schema.json condensed from the shipped .ecore models.',
 'C06': 'Proof over every document as a stream of parser events of any length: identity statements. '+W,
 'C07': 'Proof over every event stream: attribute and enumeration statements. '+W,
 'C08': 'Proof over every event stream: reference statements, on top of the setter and add contracts (C01, C02). '+W,
 'C09': 'Proof over every namespace map and argument combination, independence of earlier reads. '+W,
 'C10': 'Proof over every event stream: unknown classes, attributes, namespaces and dangling references. '+W,
 'C11': 'Proof over every balanced call sequence. Assumed: contracts of str.replace/join/encode, one root, output stream able to store what is written. Trusted: PyVC and the XML automaton.',
 'C12': 'Proof for every class, every combination of set and unset members. Assumed: XMLWriter contract (C11), one CIM version per map, values of the declared type. Trusted: PyVC.',
 'C13': 'Proof as a lemma over the contracts proved for C01, C04-C09, C11, C12 and C15, which are re-proved in the same run. Assumed: str/int/float/bool conversions are inverse (CPython), floats not NaN.',
 'C14': 'Proof for every element tree within the recursion limit. Assumed: ElementTree parse/tostring contract. Trusted: PyVC, z3.',
 'C15': 'Proof over every state of a segment and every written value. Assumed: only the two per-length impedance classes of the schema exist. Trusted: PyVC, z3.',
}
checks = []
for i in range(1, 16):
    p = 'C%02d' % i
    lvl = 'proof' if p in PROOF else 'exploration'
    t = T['ground'] if p == 'C05' else T['acc'] if p in ('C01', 'C02', 'C03') else T['ctor'] if p == 'C04' else T['rdr'] if 'C06' <= p <= 'C10' else {'C11': T['xml'], 'C12': T['wrt'], 'C13': T['rt'], 'C14': T['pp'], 'C15': T['seg']}[p]
    checks.append(dict(property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + p,
                       technique=t, level=lvl, level_note=NOTE[p]))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=[],
               notes='No hooks: /repo carries only fix: commits. See DESIGN.md.'), open('/verif/MANIFEST.json', 'w'), indent=1)
