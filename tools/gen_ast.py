#!/usr/bin/env python3
"""Generates harness/src/ast.rs (a uniform view of all AST nodes) from the node definitions of
the lib-ruby-parser-ast crate that /repo depends on."""
import glob, re, os
root = glob.glob(os.path.expanduser('~/.cargo/registry/src/*/lib-ruby-parser-ast-0.55.0'))[0]
enum = open(root + '/src/nodes/node_enum.rs').read()
body = enum[enum.index('pub enum Node {'):]
body = body[:body.index('}')]
variants = re.findall(r'^\s+(\w+)\(\w+\),', body, re.M)
structs = {}
for f in glob.glob(root + '/src/nodes/types/*.rs'):
    s = open(f).read()
    m = re.search(r'pub struct (\w+) \{(.*?)\n\}', s, re.S)
    if not m: continue
    structs[m.group(1)] = re.findall(r'^    pub (\w+): ([^,]+),', m.group(2), re.M)
out = ['// generated by tools/gen_ast.py - do not edit', 'use lib_ruby_parser::{Node, Loc};',
 '#[derive(Clone, Copy)]',
 "pub enum F<'a> { N(&'a Node), M(Option<&'a Node>), L(&'a [Node]), Loc(Loc), MLoc(Option<Loc>), S(&'a [u8]), MS(Option<&'a [u8]>), U(u8) }",
 'pub fn name(n: &Node) -> &\'static str { match n {']
low = lambda v: re.sub(r'(?<!^)(?=[A-Z])', '_', v).lower()
for v in variants: out.append(f'    Node::{v}(_) => "{low(v)}",')
out.append('} }')
fields = sorted({n for s in structs.values() for n, _ in s})
out.append('pub fn fields<\'a>(n: &\'a Node, f: &mut dyn FnMut(&\'static str, F<\'a>)) { match n {')
kind = {'Box<Node>': 'F::N(&x.{f})', 'Option<Box<Node>>': 'F::M(x.{f}.as_deref())', 'Vec<Node>': 'F::L(&x.{f})', 'Loc': 'F::Loc(x.{f})',
        'Option<Loc>': 'F::MLoc(x.{f})', 'String': 'F::S(x.{f}.as_bytes())', 'Option<String>': 'F::MS(x.{f}.as_ref().map(|s| s.as_bytes()))', 'Bytes': 'F::S(&x.{f}.raw)', 'u8': 'F::U(x.{f})'}
for v in variants:
    fs = structs[v]
    # children first, locations last
    order = [x for x in fs if 'Loc' not in x[1]] + [x for x in fs if 'Loc' in x[1]]
    out.append(f'    Node::{v}(x) => {{ ' + ' '.join(f'f("{n}", {kind[t].format(f=n)});' for n, t in order) + ' }')
out.append('} }')
open('/verif/harness/src/ast.rs', 'w').write('\n'.join(out) + '\n')
print(len(variants), 'variants', len(fields), 'fields')
