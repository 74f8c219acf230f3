#!/usr/bin/env python3
"""Write harness/src/condcases.rs: conditional blocks with every short list of
conditions."""
import itertools, os
C = ['all()', 'any()', 'unix', 'not(unix)', 'target_endian = "big"', 'feature = "std"']
L = ['all(unix, not(windows))', 'any(windows, unix)', 'not(any(windows, unix))', 'target_pointer_width = "64"', 'not(feature = "std")', 'debug_assertions']
lists = [list(p) for n in (1, 2, 3) for p in itertools.product(C, repeat=n)]
for n in (4, 5, 6, 8, 12, 20):
    for k in range(6):
        # Mostly false, with the first true one at varying places.
        v = ['any()', 'not(unix)', 'not(any(windows, unix))'] * 8
        v = v[:n]
        at = [0, 1, n // 2, n - 2, n - 1, None][k]
        if at is not None:
            v[at] = L[(n + k) % 2]
            if at + 1 < n: v[at + 1] = 'all()'
            if at + 2 < n: v[n - 1] = L[3 + n % 3]
        lists.append(v)
out = ['// Generated by tools/cond.py.', '']
names = []
def emit(i, v, els, empty):
    names.append('f%d' % i)
    out.append('fn f%d() -> Row {' % i)
    out.append('    let mut l = Vec::new();')
    out.append('    cond! {')
    for k, c in enumerate(v):
        body = '' if empty == k else 'let v = %d; l.push(v); if v != %d { l.push(99); }' % (k, k) if k % 2 else 'l.push(%d);' % k
        out.append('        (%s) { %s },' % (c, body))
    if els:
        out.append('        { l.push(%d); },' % len(v))
    out.append('    }')
    out.append('    Row { conds: &[%s], names: &[%s], other: %s, empty: %s, log: l }' % (
        ', '.join('cfg!(%s)' % c for c in v), ', '.join('r#"%s"#' % c for c in v), str(els).lower(), 'Some(%d)' % empty if empty is not None else 'None'))
    out.append('}')
i = 0
for v in lists:
    for els in (False, True):
        emit(i, v, els, None); i += 1
    if len(v) == 2:
        emit(i, v, True, i % 2); i += 1
out.append('pub const ROWS: &[fn() -> Row] = &[%s];' % ', '.join(names))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.environ.get('OUT') or here + '/harness/src/condcases.rs', 'w').write('\n'.join(out) + '\n')
