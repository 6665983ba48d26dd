#!/usr/bin/env python3
"""corpus/modules.json: the procedures of a 1C module (ast/testdata of the parser,
(c) 1C-Soft, CC BY 4.0), as sequences of code points, each with what stands in front of it."""
import json, re, sys
text = open(sys.argv[1], encoding='utf-8').read()
chunks, cur = [], ''
for line in text.splitlines(keepends=True):
    cur += line
    if re.match(r'\s*Конец(Процедуры|Функции)', line):
        chunks.append(cur)
        cur = ''
if cur.strip():
    chunks.append(cur)
assert ''.join(chunks) == text
json.dump([[ord(c) for c in x] for x in chunks], open(sys.argv[2], 'w'), separators=(',', ':'))
print(len(chunks), max(map(len, chunks)), sum(map(len, chunks)))
