#!/usr/bin/env python3
# Writes DESIGN.md from tools/design.tmpl.md and the code.
import json,os,re
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
titles={d['id']:d['title'] for d in map(json.loads,open('properties.jsonl'))}
def check(m):
    i,t=m.group(1),m.group(2)
    src=open(f'harness/checks/{i.lower()}.go').read()
    out=[f'### {i}: {titles[i]}','',f'Quick: about {t}.' if not t.startswith('about') else f'Quick: {t}.','']
    for n,d,rest in re.findall(r'\{Name: "([^"]+)", Doc: "([^"]+)",([^\n]*)\}',src):
        out.append(f'* `{n}`: {d}'+(' (thorough only)' if 'Thorough: true' in rest else ''))
    assert len(out)>4,i
    return '\n'.join(out+['',''])
def seeds(m):
    out=['| planted bug | property | what it breaks | needs |','|---|---|---|---|']
    for s in sorted(os.listdir('seeded')):
        d=json.load(open(f'seeded/{s}/meta.json'))
        out.append(f"| {s} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
    return '\n'.join(out)
def fixes(m):
    out=[]
    for p,c,w in re.findall(r'^fixed\("(C\d+)", ?"(\w+)", ?"((?:[^"\\]|\\.)*)"\)',open('tools/mkfindings.py').read(),re.M): out.append(f'* {p} `{c}`: {w}')
    return '\n'.join(out)
s=open('tools/design.tmpl.md').read()
s=re.sub(r'\{\{check (C\d+) ([^}]*)\}\}\n',check,s)
s=s.replace('{{seeds}}',seeds(None)).replace('{{fixes}}',fixes(None))
x='tools/design.mutation.md'
s=s.replace('{{extra}}',open(x).read() if os.path.exists(x) else '')
open('DESIGN.md','w').write(s)
