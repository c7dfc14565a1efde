// What each check runs: harness, cases (concrete shapes; everything else is symbolic), bounds.
const product = (...dims) => dims.reduce((acc, d) => acc.flatMap((a) => d.map((x) => [...a, x])), [[]]);
const range = (a, b) => Array.from({ length: b - a + 1 }, (_, i) => a + i);

export const specs = {};
const spec = (id, assumptions, ...parts) => { specs[id] = { assumptions, parts }; };

// ---- C07 --------------------------------------------------------------------------------------
spec('C07', [],
  { name: 'options', harness: 'c07.mjs', witnesses: ['lanes computed', 'transition'],
    cases: () => product([0, 1], [0, 1], [0, 1], [0, 1], [0, 1]).map(([sync, handler, priority, transition, delay]) => ({ sync, handler, priority, transition, delay })),
    bounds: 'every subset of {flushSync, handler, priority, transition, delay}; flushSync any boolean, any of the 3 priorities, transition any integer 0..2^31-1, delay any non-NaN double >= 0' },
  { name: 'lane sets', harness: 'c07b.mjs', witnesses: ['any lanes'], cases: () => [{}], bounds: 'every 31-bit lane set' });

// ---- C08 --------------------------------------------------------------------------------------
const queueOps = (n) => { // all sequences of n enqueues with dequeues in between (never more than the queue holds, plus one on empty)
  const out = [];
  const go = (s, left, inside) => {
    if (left === 0) { out.push(s); return; }
    go(s + '+', left - 1, inside + 1);
    if (inside > 0 && s.at(-1) !== '-') go(s + '-', left, inside - 1);
  };
  go('', n, 0);
  return out;
};
spec('C08', ['the comparison is the difference of integer keys (a consistent total preorder)'],
  { name: 'operations', harness: 'c08.mjs', witnesses: ['dequeued'],
    cases: (t) => [{ ops: '-' }, ...range(1, t === 'quick' ? 5 : 6).flatMap((n) => queueOps(n).map((ops) => ({ ops })))],
    bounds: (t) => `every sequence of up to ${t === 'quick' ? 5 : 6} insertions, with at most one removal between two insertions, then removals until empty; keys are arbitrary integers with ties` },
  { name: 'larger queues', harness: 'c08.mjs', witnesses: ['dequeued'],
    cases: (t) => q(t, [6, 7, 8, 11, 14, 17], range(6, 24)).flatMap((n) => range(0, 7).map((m) => Array.from({ length: n }, (_, x) => m === 0 ? 10 * x : m === 1 ? 10 * (n - x) : 10 * ((((x + m) * (x + 3 * m) * 7919 + x * 104729 + m) >> 3) % (m % 2 ? 97 : 6)))).flatMap((keys) => [...q(t, ['--+'], ['+-', '--+', '++-', '-++-+']), '-+-+'].map((end) => ({ ops: '+'.repeat(n) + end, keys })))),
    bounds: (t) => `${q(t, '6, 7, 8, 11, 14 or 17', '6 to 24')} elements with fixed keys that come in one of eight orders (ascending, descending, six scattered ones with and without ties), then up to ${q(t, 4, 5)} operations with any further keys, then removals until empty` });

// ---- C26 --------------------------------------------------------------------------------------
spec('C26', [],
  { name: 'sequences', harness: 'c26.mjs', witnesses: ['seq', 'seqfn'],
    cases: (t) => { const m = t === 'quick' ? 3 : 4; return [...product(range(0, m), range(0, m)).map(([n, k]) => ({ kind: 'seq', n, m: k })), ...product(range(0, m), range(0, m)).map(([n, k]) => ({ kind: 'seqfn', n, m: k }))]; },
    bounds: (t) => `two sequences of length up to ${t === 'quick' ? 3 : 4} each; every element any undefined/null/boolean/double/string; comparison same-value or an arbitrary relation` },
  { name: 'objects', harness: 'c26.mjs', witnesses: ['shallow'],
    cases: () => product(range(0, 7), range(0, 7), [0, 1], [0, 1]).map(([ka, kb, proto, rev]) => ({ kind: 'obj', ka, kb, proto, rev, hidden: 1 })),
    bounds: 'two objects with any own enumerable keys out of 3, in both key orders, with and without inherited and non-enumerable decoys; every value any undefined/null/boolean/double/string' });

// ---- C01 --------------------------------------------------------------------------------------
const q = (t, a, b) => t === 'quick' ? a : b;
const SMALL = ['P', 'T', 'N', 'F1', 'F2', 'C', 'C0', 'L2', 'E', 'FF1'];
const SHAPES = ['move', 'swap', 'turn', 'cut', 'keep', 'add', 'replace', 'spread', 'empty'];
spec('C01', [],
  { name: 'keyed lists', harness: 'c01a.mjs', witnesses: ['shown'],
    cases: (t) => product(range(0, 3), range(0, 3), q(t, ['root', 'inner'], ['root', 'hole', 'inner', 'comp'])).map(([a, b, where]) => ({ n: [a, b], where, kinds: ['P', 'S'], sameText: 1 })),
    bounds: 'two renders of a list of up to 3 children, every pattern of equal and different keys (duplicates included), each child of either of two types' },
  { name: 'longer keyed lists', harness: 'c01a.mjs', witnesses: ['shown'],
    cases: (t) => product(range(3, q(t, 4, 5)), range(3, q(t, 4, 5)), q(t, ['inner'], ['root', 'inner'])).map(([a, b, where]) => ({ n: [a, b], where, kinds: ['P'], sameText: 1, distinct: 1 })),
    bounds: (t) => `two renders of a list of up to ${q(t, 4, 5)} children with distinct keys` },
  { name: 'longer lists with repeated keys', harness: 'c01a.mjs', witnesses: ['shown'],
    cases: (t) => product(range(2, q(t, 4, 5)), range(2, 4)).filter(([a, b]) => a + b > 6).map(([a, b]) => ({ n: [a, b], where: 'inner', kinds: ['P'], sameText: 1 })),
    bounds: (t) => `two renders of a list of up to ${q(t, 4, 5)} children, every pattern of equal and different keys` },
  { name: 'three renders', harness: 'c01a.mjs', witnesses: ['shown'],
    cases: (t) => product(range(1, 2), range(1, 2), range(0, 2), ['root', 'inner']).map(([a, b, d, where]) => ({ n: [a, b, d], where, kinds: q(t, ['P'], ['P', 'S']), sameText: 0 })),
    bounds: 'three renders of a list of up to 2 children, any keys, any texts' },
  { name: 'nested lists', harness: 'c01b.mjs', witnesses: ['shown'],
    cases: (t) => product(range(0, 2), range(0, 2), q(t, ['inner'], ['root', 'hole', 'inner', 'list', 'deep'])).map(([a, b, where]) => ({ steps: 2, len: [a, b], vocab: SMALL, where })),
    bounds: (t) => 'two renders of a list of up to 2 subtrees out of ' + SMALL.join(' ') },
  { name: 'nested lists, three renders', harness: 'c01b.mjs', witnesses: ['shown'],
    cases: (t) => q(t, ['inner'], ['root', 'hole', 'inner', 'list', 'deep']).flatMap((where) => range(0, 2).map((n) => ({ steps: 3, len: [n, 2, 2], vocab: q(t, ['F0', 'F2', 'P'], ['F0', 'F2', 'P', 'L1', 'C0']), where }))),
    bounds: 'three renders of a list of up to 2 subtrees' },
  { name: 'moved fragments', harness: 'c01b.mjs', witnesses: ['shown'],
    cases: (t) => product(range(1, 3), range(1, 3), q(t, ['hole'], ['root', 'hole', 'inner'])).map(([a, b, where]) => ({ steps: 2, len: [a, b], vocab: q(t, ['F0', 'L2'], ['F0', 'L2', 'E']), keyed: 1, distinct: 1, where })),
    bounds: 'two renders of up to 3 children with distinct keys, each an empty or a two-node subtree' },
  { name: 'moved components', harness: 'c01b.mjs', witnesses: ['shown'],
    cases: (t) => product(range(1, 3), range(1, 3), q(t, ['hole'], ['root', 'hole', 'inner'])).map(([a, b, where]) => ({ steps: 2, len: [a, b], vocab: a + b > 5 ? ['C', 'CS'] : q(t, ['C', 'CS', 'CF'], ['C', 'CS', 'CF', 'C0', 'CC']), keyed: 1, distinct: 1, where })),
    bounds: 'two renders of up to 3 component children with distinct keys whose content changes kind' },
  { name: 'single values', harness: 'c01b.mjs', witnesses: ['shown'],
    cases: (t) => product(q(t, ['root', 'hole', 'inner'], ['root', 'hole', 'inner', 'comp', 'list', 'deep'])).map(([where]) => ({ steps: 2, len: [1, 1], bare: 1, vocab: ['P', 'S', 'T', 'N', 'W', 'F0', 'F1', 'F2', 'F2t', 'C', 'C0', 'CF', 'D', 'CD', 'L0', 'L1', 'L2', 'LF', 'E', 'E0', 'EF', 'EC', 'H', 'H0', 'FF0', 'FF1', 'FF2', 'FF3', 'FC'], where, sym: 1 })),
    bounds: 'any of 29 subtrees replaced by any other, in every kind of position, any texts' },
  { name: 'long lists', harness: 'c01d.mjs', witnesses: ['shown'],
    cases: (t) => [...['move', 'swap', 'cut', 'spread'].map((op) => ({ ops: [op], n: 33, mixed: 1, where: 'inner', texts: 'same' })), ...product(SHAPES, [q(t, 12, 20)], [0, 1], q(t, ['inner'], ['root', 'hole', 'inner', 'comp'])).map(([op, n, mixed, where]) => ({ ops: [op], n, mixed, where, texts: mixed ? 'same' : 'new' })), ...product(SHAPES, [q(t, 6, 9)], ['root', 'hole']).map(([op, n, where]) => ({ ops: [op], n, where, plain: 1, mixed: 1 })), ...product(q(t, ['move', 'cut', 'turn'], SHAPES), q(t, ['move', 'add', 'turn'], SHAPES), [q(t, 5, 6)]).map(([a, b, n]) => ({ ops: [a, b], n, where: 'inner', mixed: 1 }))],
    bounds: (t) => `${q(t, 12, 20)} keyed children (33 for moves, swaps, removals and spreading; ${q(t, 6, 9)} without keys) of one or of 6 kinds, any one moved, any two swapped, any range turned around, removed, kept alone, inserted, replaced or spread; two such changes in a row of ${q(t, 5, 6)}` },
  { name: 'one call site under different tags', harness: 'c01c.mjs', witnesses: ['compared'],
    cases: (t) => { const K = ['h', 's', 'm', 'H', 'S', ...q(t, [], ['M'])]; return [...product(K, K, q(t, ['', 'one'], ['', 'one', 'list', 'keyed']), [0, 1]).map(([a, b, shape, box]) => ({ steps: [a, b], shape, box })), ...product(['h', 's', 't'], ['h', 's', 't'], ['', 'one']).map(([a, b, shape]) => ({ steps: [a, b], shape, body: 'text' })),
      ...product(['hs', 'sh', 'hm', 'hS'], ['sh', 'ms', 'hs', 's'], ['list', 'keyed'], [0, 1]).map(([a, b, shape, box]) => ({ steps: [a, b], shape, box })), ...product(['hsh', 'shs', 'hHs', 'hmh'], ['', 'one'], [0, 1]).map(([s, shape, box]) => ({ steps: [...s], shape, box }))]; },
    bounds: 'two or three renders of a template whose text is shared by the html, svg, math and text tags and their partial versions, alone, in lists and in components' });

// ---- C02 --------------------------------------------------------------------------------------
spec('C02', ['keys within one list are pairwise different, 0 and -0 counting as the same key'],
  { name: 'keyed components and elements', harness: 'c02.mjs', witnesses: ['compared'],
    cases: (t) => product(range(0, 3), range(0, 3), q(t, ['hole'], ['plain', 'hole', 'inner'])).map(([a, b, where]) => ({ n: [a, b], where, kinds: q(t, ['A', 'B'], ['A', 'B', 'P', 'S']) })),
    bounds: 'two renders of up to 3 children, every key equality pattern, children of two (thorough: four) types' },
  { name: 'permutations', harness: 'c02.mjs', witnesses: ['compared'],
    cases: (t) => product(range(2, q(t, 4, 5)), range(2, q(t, 4, 5))).filter(([a, b]) => a > 3 || b > 3).map(([a, b]) => ({ n: [a, b], where: 'plain', kinds: ['A'] })),
    bounds: (t) => `two renders of up to ${q(t, 4, 5)} component children, every key equality pattern` },
  { name: 'three renders', harness: 'c02.mjs', witnesses: ['compared'],
    cases: (t) => product(range(1, 2), range(0, q(t, 2, 3)), range(1, 2)).map((n) => ({ n, where: 'inner', kinds: q(t, ['A', 'P'], ['A', 'P']) })),
    bounds: 'three renders of up to 2 children' },
  { name: 'long lists', harness: 'c02.mjs', witnesses: ['compared'],
    cases: (t) => [...product(SHAPES, [q(t, 12, 18)], [['A'], ['A', 'P', 'B']], q(t, ['hole'], ['plain', 'hole', 'inner'])).map(([op, len, kinds, where]) => ({ ops: [op], len, kinds, where })), ...product(q(t, ['move', 'cut', 'turn'], SHAPES), q(t, ['move', 'add', 'turn'], SHAPES), [q(t, 5, 6)]).map(([a, b, len]) => ({ ops: [a, b], len, kinds: ['A', 'P'], where: 'inner' }))],
    bounds: (t) => `${q(t, 12, 18)} children of one or three types, any one moved, any two swapped, any range turned around, removed, kept alone, inserted, replaced or spread; two such changes in a row of ${q(t, 5, 6)}` },
  { name: 'arbitrary keys', harness: 'c02.mjs', witnesses: ['compared'],
    cases: (t) => product(range(0, 2), range(1, 2)).map((n) => ({ n, where: 'plain', kinds: ['A'], keys: 'any', tags: ['undefined', 'null', 'boolean', 'number', 'string', 'empty'] })),
    bounds: 'two renders of up to 2 children, each key any undefined/null/boolean/double/string' });

// ---- C04 --------------------------------------------------------------------------------------
const O6 = ['n', 's', 'b', 'v', 'g', 't'];
const OALL = ['n', 's', 'b', 'v', 'g', 't', 'u', 'd', 'h', 'H', 'gt', 'td', 'T', 'w'];
spec('C04', ['the reducer is a function of its arguments', 'no transient updates and no update with both flushSync and a handler'],
  { name: 'two dispatches', harness: 'c04.mjs', witnesses: ['folded'],
    cases: (t) => product(OALL, OALL, [0, 1]).map(([a, b, sync]) => ({ acts: [a, b], sync })),
    bounds: 'two dispatches with any of 14 option sets, every order of host callbacks' },
  { name: 'three dispatches', harness: 'c04.mjs', witnesses: ['folded'],
    cases: (t) => product(q(t, ['s', 'b', 'g', 't'], O6), q(t, ['s', 'b', 'g', 't'], O6), q(t, ['s', 'b', 'g', 't'], O6), q(t, [0], [0, 1])).map(([a, b, d, sync]) => ({ acts: [a, b, d], sync })),
    bounds: 'three dispatches, every order of host callbacks' },
  { name: 'state with updater functions and values', harness: 'c04.mjs', witnesses: ['folded'],
    cases: (t) => product(q(t, ['s', 'g', 't'], O6), q(t, ['s', 'g', 't'], O6), [0, 1], [0, 1]).map(([a, b, p, r]) => ({ acts: [a, b], hook: 'state', plain: [p, r], effect: 1 })),
    bounds: 'two setState calls with an updater function or a plain value' },
  { name: 'with re-renders from above', harness: 'c04.mjs', witnesses: ['folded'],
    cases: (t) => product(q(t, ['s', 'g', 't'], O6), q(t, ['Rs', 'Rg', 'Rb'], O6.map((x) => 'R' + x)), q(t, ['g', 't'], O6), [0, 1], q(t, [0], [0, 1])).map(([a, b, d, bail, parent]) => ({ acts: [a, b, d], bail, parent })),
    bounds: 'dispatch, re-render of the root, dispatch; the component re-renders from above or bails out' },
  { name: 'changing reducers', harness: 'c04b.mjs', witnesses: ['folded'],
    cases: (t) => product(q(t, ['n', 's', 't'], O6), [(o) => ['d' + o, 'R' + o, 'd' + o], (o) => ['R' + o, 'd' + o, 'd' + o], (o) => ['R' + o, `d${o}+d${o}`], (o) => [`d${o}+R${o}`, 'd' + o], (o) => [`R${o}+d${o}`, 'd' + o], (o) => ['dg+R' + o, 'd' + o], (o) => ['d' + o, 'd' + o, 'R' + o], (o) => [`d${o}+d${o}`, 'R' + o]]).map(([o, f]) => ({ acts: f(o) })),
    bounds: 'three dispatches and renders that change the reducer, one after the other and together' },
  { name: 'custom comparisons', harness: 'c04.mjs', witnesses: ['folded', 'skipped'],
    cases: (t) => [...product(q(t, ['n', 's', 't'], O6), q(t, ['n', 's', 'g'], O6)).map((acts) => ({ acts, custom: 1 })), ...product(q(t, ['n', 's', 't'], O6), q(t, ['Rs', 'Rn'], O6.map((x) => 'R' + x)), q(t, ['n', 's'], O6), [0, 1]).map(([a, b, d, bail]) => ({ acts: [a, b, d], custom: 1, bail }))],
    bounds: 'two dispatches, with a re-render of the root between them or none, that are skipped by any comparison of the states' },
  { name: 'states that follow properties', harness: 'c04d.mjs', witnesses: ['folded'],
    cases: (t) => [...product([['d+R'], ['R+d'], ['d', 'R'], ['d', 'd'], ['d+d', 'R'], ['d+R+d'], ['R', 'd+d'], ['d+R', 'd'], ...q(t, [], [['d+d+R', 'd'], ['d', 'R+d', 'R'], ['d+R', 'd+R']])], q(t, ['s', 'n', 't'], O6), ['reducer', 'state'], [0, 1], [0, 1]).filter(([, , hook, lazy, parent]) => t !== 'quick' || (hook === 'state') === (lazy === 1) || parent).map(([acts, o, hook, lazy, parent]) => ({ acts: acts.map((x) => x.split('+').map((y) => y + o).join('+')), hook, lazy, parent })),
      ...product([['dg+Rs'], ['ds+dg'], ['dg+ds'], ['dg+ds+Rs'], ['dt+Rs'], ['dg+Rs', 'dn+dg']], ['reducer', 'state'], [0, 1]).map(([acts, hook, parent]) => ({ acts, hook, parent, mixed: 1 }))],
    bounds: (t) => `up to ${q(t, 3, 4)} dispatches to a state that follows a property (passthrough) and renders that change the property, one after the other and together, of one and of different priorities` },
  { name: 'dispatches while rendering', harness: 'c04c.mjs', witnesses: ['folded'],
    cases: (t) => product([['a:O+a:O'], ['a:O', 'a:O'], ['P:O+a:O'], ['a:O+b:O'], ['R:O+a:O'], ...q(t, [], [['a:O+b:O+a:O', 'P:O'], ['P:O', 'a:O+b:O']])], ['a>a', 'a>b', 'b>a', 'P>a', 'a>P'], q(t, ['s', 'n'], ['s', 'n', 't', 'g']), q(t, [''], ['', 's', 'g']), [0, 1]).map(([acts, nested, o, no, list]) => ({ acts: acts.map((a) => a.replaceAll('O', o)), nested: nested + '>' + (no || o), list })),
    bounds: (t) => `${q(t, 'two', 'up to four')} dispatches and renders of a parent and two children, one of which dispatches to another in its second render` },
  { name: 'dispatches while mounting', harness: 'c04c.mjs', witnesses: ['folded'],
    cases: (t) => product([['R:O'], ['R:O', 'R:O'], ['R:O+R:O'], ...q(t, [], [['R:O', 'R:O+R:O']])], ['a>a', 'b>a', 'a>P', 'P>P'], q(t, ['s', 'n', 'g'], ['s', 'n', 't', 'g', 'b']), q(t, ['s', 'n', 'g'], ['s', 'n', 't', 'g', 'b']), [0, 1]).map(([acts, nested, o, no, list]) => ({ acts: acts.map((a) => a.replaceAll('O', o)), nested: nested + '>' + no + '>1', list, mounting: 1 })),
    bounds: 'up to three renders of a parent and two children, one of which dispatches to another in its first render' });

// ---- C05 --------------------------------------------------------------------------------------
const OPTS5 = ['n', 's', 'b', 'v', 'g', 't', 'u', 'd', 'e', 'h', 'H', 'bt', 'gt', 'gu', 'td', 'st', 'T', 'w'];
spec('C05', ['no update carries both flushSync and a handler', 'the host runs every callback it was asked to run; a visible page runs frames before timers, a hidden one runs no frames'],
  { name: 'two updates', harness: 'c05.mjs', witnesses: ['settled'],
    cases: (t) => product(['xx', 'xy', 'px', 'Rx', 'RR', 'xR', 'xp'], OPTS5, OPTS5, q(t, [0], [0, 1])).filter(([w, a, b]) => w !== 'RR' || a === b).map(([w, a, b, hidden]) => ({ acts: [w[0] + a, w[1] + b], hidden, sync: 1 })),
    bounds: 'two updates (two components, their parent, the root) with any of 18 option sets each (two renders of the root: the same options)' },
  { name: 'three updates', harness: 'c05.mjs', witnesses: ['settled'],
    cases: (t) => product(['xyx', 'xRp'], q(t, ['s', 'g', 't', 'H'], ['s', 'b', 'g', 't', 'H', 'd']), q(t, ['b', 'gt'], ['s', 'b', 'gt', 'gu', 'u', 'd', 'H']), q(t, ['g', 'gu', 't'], ['s', 'b', 'g', 'gt', 'gu', 't', 'H'])).map(([w, a, b, d]) => ({ acts: [w[0] + a, w[1] + b, w[2] + d] })),
    bounds: 'three updates, every order of host callbacks' },
  { name: 'updates of two priorities', harness: 'c05.mjs', witnesses: ['settled'],
    cases: (t) => product(['xyp', 'yRx'], ['gt', 'gu', 'bt', 'gd', 'td'], [[0, 1, 2], [1, 0, 2], [0, 2, 1], [1, 2, 0], [2, 0, 1], ...q(t, [], [[0, 1, 2, 2], [0, 2, 1, 2], [2, 0, 1, 2]])]).map(([w, two, order]) => ({ acts: order.map((k, i) => (w + 'y')[i] + [two[0], two[1], two][k]) })),
    bounds: (t) => `an update of two priorities with an update of either of them${q(t, '', ' and another of both')}` },
  { name: 'updates from effects', harness: 'c05.mjs', witnesses: ['settled'],
    cases: (t) => product(['s', 'g', 't', 'H'], ['s', 'b', 't', 'd'], q(t, ['s', 'g'], ['s', 'g', 't', 'H']), ['x', 'R', 'p']).map(([a, inEffect, b, w]) => ({ acts: ['x' + a, w + b], inEffect })),
    bounds: 'an update requested by an effect during the commit of another' },
  { name: 'failing updates', harness: 'c05.mjs', witnesses: ['settled'],
    cases: (t) => product(['y', 'yx', 'xy', 'py', 'yR', 'xyx', ...q(t, [], ['yy', 'Ryx', 'yxy'])], ['s', 'b', 'g', 't', 'H', 'X'], q(t, ['s', 'g', 'X'], ['s', 'b', 'g', 'gt', 'H', 'X'])).filter(([w, a, b]) => w.length > 1 || b === 's').map(([w, a, b]) => ({ acts: [...w].map((x, i) => x + (i === 1 ? b : a)), failing: 1 })),
    bounds: 'up to three updates of which some throw while rendering or have a handler that rejects' },
  { name: 'hosts without postTask', harness: 'c05.mjs', witnesses: ['settled'],
    cases: (t) => product(['xR', 'xp'], ['s', 'b', 'g', 't', 'gt', 'v', 'd'], ['s', 'b', 'g', 't', 'gu', 'v', 'd'], [0, 1]).map(([w, a, b, hidden]) => ({ acts: [w[0] + a, w[1] + b], noPostTask: 1, hidden })),
    bounds: 'two updates on a host that only has timers, idle callbacks and message channels' });

// ---- C06 --------------------------------------------------------------------------------------
spec('C06', ['an update counts as ready once the host has run the callback requested for it; no update carries both flushSync and a handler', 'no order is claimed between different transitions or delays that go without a priority'],
  { name: 'while a commit waits for its frame', harness: 'c06.mjs', witnesses: ['ready together', 'sync', 'handler'],
    cases: (t) => [...product(q(t, ['zg', 'xs'], ['zg', 'xt', 'yb', 'xs']), q(t, ['y', 'z'], ['x', 'y', 'z']), q(t, ['s', 'b', 'v', 'g', 't', 'h'], ['s', 'b', 'v', 'g', 't', 'u', 'd', 'h', 'H', 'gt']), ['x', 'z'], q(t, ['s', 'b', 'v', 'g', 't', 'h'], ['s', 'b', 'v', 'g', 't', 'u', 'd', 'h', 'H', 'gt'])).map(([f, a, oa, b, ob]) => ({ acts: [f, a + oa, b + ob] }))],
    bounds: 'an update whose commit waits for a frame, then two updates of any of 6 (thorough: 10) option sets on components of three depths, every order of host callbacks' },
  { name: 'renders of the root', harness: 'c06.mjs', witnesses: ['ready together'],
    cases: (t) => product(['g', 't', 'b', 'v', 'h', 's'], ['Rg', 'zs', 'yb'], ['RR', 'RRR', 'RzR', 'zxy', 'zRx']).map(([o, first, w]) => ({ acts: [first, ...[...w].map((x) => x + o)] }))
      .concat(product([['s', 'st'], ['st', 's'], ['b', 'bt'], ['bt', 'b'], ['g', 'gt'], ['gt', 'g'], ['gt', 'gd'], ['gd', 'g'], ['g', 'gu'], ['gu', 'gt']], ['zg', 'xs'], ['RR', 'xz', 'zx', 'zz', ...q(t, [], ['Rz', 'yy', 'xR'])]).map(([[o1, o2], first, w]) => ({ acts: [first, w[0] + o1, w[1] + o2] }))),
    bounds: 'updates at the same priority with different transitions and delays, two or three renders of the root and updates of its components at the same priority, after another update' },
  { name: 'several roots', harness: 'c06b.mjs', witnesses: ['served'],
    cases: (t) => product(['plain', 'comp', ...q(t, [], ['two'])], ['n', 's', 't', 'h', 'v'], [0, 1]).map(([body, opt, together]) => ({ body, opt, together, roots: 2, requests: together ? q(t, 4, 5) : q(t, 2, 3) })).concat(q(t, [{ body: 'plain', opt: 'n', together: 1, roots: 3, requests: 3 }], product(['plain', 'comp'], ['n', 's', 'h']).map(([body, opt]) => ({ body, opt, together: 1, roots: 3, requests: 4 })))),
    bounds: (t) => `any ${q(t, 4, 5)} requests to render or unmount two roots (${q(t, 3, 4)} for three roots) of one runtime at the same priority together, any ${q(t, 2, 3)} in every order with the callbacks of the host` });

// ---- C09 --------------------------------------------------------------------------------------
const D = ['u', 'n', '0', '1', '2'];
spec('C09', ['an effect whose dependencies changed only in a render that failed may run once more (it is only required to run when they differ from the committed ones)'],
  { name: 'dependencies', harness: 'c09.mjs', witnesses: ['step', 'unmounted'],
    cases: (t) => [...product(D, D, ['unmount', 'remove']).map(([a, b, end]) => ({ deps: [[a], [b]], end })), ...product(['u', '1'], ['1', '2'], ['1', '0'], [0, 1]).map(([a, b, d, sync]) => ({ deps: [[a], [b], [d]], via: [0, 'own', 0], sync, clean: 'odd', end: 'remove' }))],
    bounds: 'two or three renders (from above or by the component itself), dependency lists absent, null or of up to 2 values of any primitive type' },
  { name: 'several effects', harness: 'c09.mjs', witnesses: ['step', 'unmounted'],
    cases: (t) => product(['comp', 'tmpl'], ['none', 'odd', 'all'], [[['1', '1'], ['1', '1']], [['1', 'u'], ['1', '1'], ['1', '1']], [['0', '1'], ['0', '1'], ['0', '1']]]).map(([where, clean, deps]) => ({ effects: 2, deps, where, clean, end: 'unmount', tags: ['number', 'string'] })),
    bounds: 'two effects, up to three renders, with and without cleanup functions' },
  { name: 'failing renders', harness: 'c09.mjs', witnesses: ['step', 'unmounted'],
    cases: (t) => product(['1', 'u', '0'], ['comp', 'tmpl'], [[1], [1, 2], [2]]).map(([d, where, bomb]) => ({ deps: [[d], [d], [d], [d]], where, bomb, end: 'remove', tags: ['number', 'string'] })),
    bounds: 'four renders, one or two of which fail in a later sibling' },
  { name: 'throwing effects', harness: 'c09.mjs', witnesses: ['step', 'unmounted', 'threw'],
    cases: (t) => product([['1', '1', '1'], ['1', 'u', '1'], ['0', '1', '0'], ['u', 'u', 'u', 'u'], ...q(t, [], [['1', '1', '1', '1']])], [[[], ['0+']], [['0+'], []], [['0+'], ['0+']], [[], ['0-', '0+'], ['0-']], [[], ['0+', '1-'], ['1+']], [['1+'], ['0+'], [], ['0-', '1-']]], ['all', 'odd'], ['comp', 'tmpl']).map(([deps, throws, clean, where], i) => ({ effects: 2, deps: deps.map((d) => [d, '1']), throws, clean, where, end: i % 2 ? 'remove' : 'unmount', via: [0, ...(i % 3 ? [0, 'own'] : ['own', 0]), 'own'], tags: ['number', 'string'] })),
    bounds: (t) => `three or four renders of two effects, one or two of which, or their cleanups, throw at one to three of the renders or at unmount` },
  { name: 'many', harness: 'c09.mjs', witnesses: ['step', 'unmounted'],
    cases: (t) => { const D = (...ns) => ns.map((n) => [n]), E = (n, r) => Array.from({ length: r }, () => Array(n).fill('1')); return [{ effects: 6, deps: E(6, 2) }, { effects: 9, deps: [Array(9).fill('u'), ['1', 'u', '0', '1', 'n', '0', '1', 'u', '1'], ['1', 'u', '0', '1', 'n', '0', '1', 'u', '1']] }, { effects: 3, deps: E(3, 3) }, { deps: D('6', '6', '6') }, { deps: D('9', '9') }, { deps: D('5', '6', '5') }, { deps: D(...Array(q(t, 8, 10)).fill('1')) }, { deps: D('1', '1', 'u', '1', '0', '0', '1', '1', 'n', '1') }, { effects: 2, deps: [['4', '1'], ['4', '1'], ['4', '1'], ['4', '1']] }].flatMap((x, i) => ['comp', 'tmpl'].filter((_, j) => t !== 'quick' || (i + j) % 2 === 0).map((where, j) => ({ ...x, where, clean: ['all', 'odd', 'none'][(i + j) % 3], end: j ? 'remove' : 'unmount', tags: ['string'], via: i % 2 ? [0, 'own', 0, 'own', 'own', 0, 0, 'own', 'own', 0] : undefined }))); },
    bounds: (t) => `up to 9 effects, dependency lists of up to 9 strings, up to 10 renders` });

// ---- C10 --------------------------------------------------------------------------------------
spec('C10', [],
  { name: 'values', harness: 'c10.mjs', witnesses: ['memo'],
    cases: (t) => product(range(0, 2), range(0, 2), [0, 1]).map(([a, b, o]) => ({ len: [a, b], own: [0, o] })).concat(product([1], [1], [1], [0, 1]).map(([a, b, d, o]) => ({ len: [a, b, d], own: [0, o, 0] })), [{ many: q(t, 700, 4000) }]),
    bounds: (t) => `two renders with dependency lists of up to 2 values, three with one, every value any undefined/null/boolean/double/string; up to three times ${q(t, 700, 4000)} identifiers` },
  { name: 'hook order', harness: 'c10.mjs', witnesses: ['rejected', 'accepted'],
    cases: (t) => product(range(0, 2), range(0, 3)).map((hooks) => ({ hooks })).concat(product([1], [1, 2]).map((hooks) => ({ hooks, more: 1 }))),
    bounds: 'every sequence of up to 2 hooks followed by every sequence of up to 3' },
  { name: 'failing computations', harness: 'c10b.mjs', witnesses: ['failed', 'computed'],
    cases: (t) => product([[1, 1, 1], [0, 1, 1], [1, 2, 2], ...q(t, [], [[1, 1, 1, 1]])], [[1], [1, 2]], [0, 1]).map(([len, fails, own]) => ({ len, fails, own: len.map((_, i) => i > 0 && own) })),
    bounds: (t) => `${q(t, 'three', 'three or four')} renders of which up to two may fail, in the computation of either of two values, before or after` },
  { name: 'long lists', harness: 'c10.mjs', witnesses: ['memo'],
    cases: (t) => product([[5, 5], [6, 6], [9, 9], [6, 5], [5, 6, 6], [3, 3, 3], Array(q(t, 7, 9)).fill(1)], [0, 1]).map(([len, o]) => ({ len, own: len.map((_, i) => i > 0 && o && i % 2), tags: ['string'] })),
    bounds: (t) => `dependency lists of up to 9 strings, up to ${q(t, 7, 9)} renders` },
  { name: 'long hook orders', harness: 'c10.mjs', witnesses: ['rejected', 'accepted'],
    cases: (t) => ['eimrfsk', 'mmmmmmmmmmmm', 'eeeeeeeeee', 'iiririeem', 'rsrsrsrsrsrsrsrsrs', 'emiremiremiremiremir'].map((base) => ({ base, hooks: [] })),
    bounds: '6 sequences of 7 to 20 hooks followed by the same with any one replaced, added, left out or moved to the end' });

// ---- C11 --------------------------------------------------------------------------------------
spec('C11', ['one reference object is bound at one place at a time'],
  { name: 'one reference', harness: 'c11.mjs', witnesses: ['unbound'],
    cases: (t) => product(['one', 'nested'], [0, 1], ['unmount', 'replace'], [1, 2, 3]).map(([shape, hole, end, steps]) => ({ shape, hole, end, steps, kinds: q(t, steps === 3 ? ['f', 'F', 'g', 'R', 'n'] : ['f', 'F', 'G', 'g', 'R', 'S', 'n', 'u'], ['f', 'F', 'G', 'g', 'R', 'S', 'n', 'u']) })),
    bounds: 'up to three renders, each binding any of 8 values (functions with and without cleanup, shared or new, two reference objects, null, undefined)' },
  { name: 'two elements', harness: 'c11.mjs', witnesses: ['unbound'],
    cases: (t) => product(['unmount', 'replace'], [2]).map(([end, steps]) => ({ shape: 'two', end, steps, kinds: ['f', 'F', 'g', 'R', 'S', 'n'] })),
    bounds: 'two renders of two elements with any of 6 values each' },
  { name: 'several references on one element', harness: 'c11.mjs', witnesses: ['unbound'],
    cases: (t) => product(range(0, 2), range(0, 2), ['unmount', 'replace']).map(([a, b, end]) => ({ shape: 'list', len: [a, b], end, steps: 2, kinds: ['f', 'F', 'g', 'R', 'n'] })),
    bounds: 'two renders with lists of up to 2 references on one element' },
  { name: 'many references', harness: 'c11.mjs', witnesses: ['unbound'],
    cases: (t) => [...product([[6, 6], [6, 3], [2, 7], [8, 1], [0, 9], [4, 4, 4]], [['F', 'f'], ['f', 'n']]).filter(([len, k]) => t !== 'quick' || len[0] + len[1] < 12 || k[0] === 'F').map(([len, kinds]) => ({ shape: 'list', len, steps: len.length, end: 'unmount', kinds })), ...product(['one', 'nested'], [['F', 'f', 'n'], ['F', 'G', 'R']]).map(([shape, kinds]) => ({ shape, end: 'unmount', steps: 6, kinds }))],
    bounds: 'lists of up to 9 references, on one element; six renders of one reference' });

// ---- C12 --------------------------------------------------------------------------------------
spec('C12', ['listener objects are not modified while bound', 'whether a once-listener that already fired is armed again by a different listener object with equal options is left open'],
  { name: 'one listener', harness: 'c12.mjs', witnesses: ['fired', 'unmounted'],
    cases: (t) => product(['A', 'B', 'f', 'O', 'n', 'x'], ['A', 'f', 'O', 'n', 'x'], q(t, ['', 'A', 'n'], ['', 'A', 'f', 'n', 'O']), ['unmount', 'replace']).map(([a, b, d, end]) => ({ steps: [a, b, d].filter((x) => x), opts: ['capture'], fire: 1, end, nested: end === 'replace' ? 1 : 0 })),
    bounds: 'up to three renders with functions, an object, null/undefined or objects with any capture option' },
  { name: 'lists and components', harness: 'c12.mjs', witnesses: ['fired', 'unmounted'],
    cases: (t) => product(['A', 'l', 'c', 'x'], ['l', 'e', 'c', 'A', 'n'], ['A', 'l', 'c', 'x'], q(t, [''], ['', 'A', 'e', 'c']), ['unmount', 'replace']).filter(([a, b, d]) => [a, b, d].some((k) => 'lec'.includes(k))).map(([a, b, d, e, end]) => ({ steps: [a, b, d, e].filter((x) => x), opts: ['capture'], fire: 1, end })),
    bounds: (t) => `${q(t, 'three', 'up to four')} renders with listeners bound directly, in a list or by a component` },
  { name: 'options', harness: 'c12.mjs', witnesses: ['fired', 'unmounted'],
    cases: (t) => product([['x', 'x'], ['x', 'A', 'x'], ['A', 'x'], ['x', 'n', 'x'], ...q(t, [], [['x', 'x', 'x']])], [['capture', 'once'], ['capture', 'passive'], ...q(t, [], [['capture', 'once', 'passive']])]).map(([steps, opts]) => ({ steps, opts, fire: 2, prevent: 1, end: 'unmount' })),
    bounds: 'up to three renders with listener objects, every presence and value of capture, once and passive, two events per render' },
  { name: 'abort signals', harness: 'c12.mjs', witnesses: ['fired', 'unmounted', 'aborted'],
    cases: (t) => product([['y', 'y'], ['y', 'A'], ['A', 'y'], ['y', 'n', 'y'], ...q(t, [], [['y', 'y', 'y']])], [[], ['capture'], ...q(t, [], [['capture', 'once']])]).map(([steps, opts]) => ({ steps, opts, fire: 2, abort: 1, end: 'unmount' })),
    bounds: 'up to three renders with listener objects carrying either of two abort signals or none, each signal aborted at any time between events' },
  { name: 'several listeners', harness: 'c12b.mjs', witnesses: ['listed'],
    cases: (t) => [...product(range(0, 2), range(0, 2)).map((len) => ({ len })), { len: [2], signal: 1 }, { len: [1], signal: 1 }],
    bounds: 'two renders with lists of up to 2 listeners on one element; abort signals on up to 2' },
  { name: 'many listeners', harness: 'c12b.mjs', witnesses: ['listed'],
    cases: (t) => [[5, 5], [7, 3], [2, 8], [4, 3, 3]].map((len) => ({ len, kinds: ['A', 'n'] })).concat([[3, 3]].map((len) => ({ len, kinds: ['A', 'o'] }))),
    bounds: 'lists of up to 8 listeners on one element' },
  { name: 'long histories', harness: 'c12.mjs', witnesses: ['fired', 'unmounted'],
    cases: (t) => ['AnABnAAB', 'fffffff', 'AfAfAnfB', 'OOAOOnO', 'xAnxA', 'AlAlAlA', 'cAncAnl'].map((s) => ({ steps: [...s], opts: ['capture'], fire: 1, end: 'unmount' })),
    bounds: 'seven given sequences of 5 to 8 renders' });

// ---- C13 --------------------------------------------------------------------------------------
spec('C13', [],
  { name: 'primitive values', harness: 'c13.mjs', witnesses: ['bound'],
    cases: (t) => product(['attr', 'attr-static', 'attr-case', 'prop', 'live', 'text', 'mixed', 'textmode', 'child'], [1, 2, ...q(t, [], [3])], [0, 1]).map(([kind, steps, own]) => ({ kind, steps, own })),
    bounds: (t) => `${q(t, 'two', 'three')} renders (from the root or by the component), each value any undefined/null/boolean/double/string` },
  { name: 'live properties the user changes', harness: 'c13.mjs', witnesses: ['bound'],
    cases: () => [[0, 1], [0, 1, 1]].map((user) => ({ kind: 'live', steps: user.length, user })),
    bounds: 'up to three renders, the property changed to any primitive value in between' },
  { name: 'objects', harness: 'c13.mjs', witnesses: ['bound'],
    cases: () => product(['attr', 'text', 'textmode', 'child'], ['fn', 'obj', 'bare', 'big', ''], ['fn', 'obj', 'bare', 'big', '']).filter(([, a, b]) => a || b).map(([kind, a, b]) => ({ kind, steps: 2, special: [a, b] })),
    bounds: 'functions, objects with and without a string form and bigints, before and after any primitive' },
  { name: 'values of components', harness: 'c13b.mjs', witnesses: ['bound'],
    cases: (t) => [...product(['attr', 'prop', 'live', 'text', 'mixed', 'two'], q(t, [['p', '1'], ['1', 'p'], ['1', '2'], ['1', '~', '1'], ['k', 'k'], ['o', '1'], ['p', '1~'], ['1', '~p'], ['1', '2~'], ['1', '~2']], product(['p', '1', 'o', 'k'], ['p', '1', '2', 'k', 'o', '~', '~1', '1~', '2~', '~p', '~2'], ['p', '1', '~', 'o'])), [0, 1]).map(([kind, ops, bail]) => ({ kind, ops, bail, opt: ops.length % 2 ? 'n' : 's', whole: kind === 'text' || kind === 'prop' })),
      ...product([['1', '~'], ['1', '2'], ['1', 'p']], [[0, 1]]).map(([ops, user]) => ({ kind: 'live', ops, user }))],
    bounds: (t) => `up to 3 renders and updates with plain values and values that components return, nested ones included, taking turns in one hole (${q(t, 'ten', 'all')} sequences)` });

// ---- C14 --------------------------------------------------------------------------------------
spec('C14', ['bound classes are disjoint from the static and foreign ones, and those of different values on one element from each other', 'the values of a class object are booleans'],
  { name: 'one binding', harness: 'c14.mjs', witnesses: ['classes'],
    cases: (t) => product(['x', 'E', q(t, 's2', 's3'), 'm2', q(t, 'm11', 'm12'), 'n'], ['x', 'E', 's2', 's3', 'm1', q(t, 'm11', 'm12'), 'n'], [0, 1]).filter(([a, b, f]) => t !== 'quick' || f === 1 || a === 'x').map(([a, b, fixed]) => ({ steps: [a, b], fixed, foreign: fixed, same: fixed })).concat(product(['s2', 'm2', 'x'], ['s2', 'm2', 'x'], ['s1', 'm1']).map((steps) => ({ steps, fixed: 1 }))),
    bounds: 'two or three values: null, undefined, any digit, any string of up to 3 characters, any object with up to 2 names of up to 2 characters, blanks included, each with any boolean; with and without static and foreign classes' },
  { name: 'classes in several names', harness: 'c14.mjs', witnesses: ['classes'],
    cases: (t) => product(['x', 'm&1', 'm1&', 'm&&', 's3', ...q(t, [], ['m&11', 'm1&1'])], ['x', 'm&1', 'm1&', 'm1', ...q(t, [], ['m&&'])]).filter((s) => s.some((k) => k.includes('&'))).map((steps) => ({ steps, foreign: 1 })),
    bounds: 'two values, at least one of them an object with a name of any two classes and another one with any boolean, which may be the same classes' },
  { name: 'lists of values', harness: 'c14.mjs', witnesses: ['classes'],
    cases: (t) => product(['', 's2', 'm1', q(t, 's1s1', 's2s1'), 'm1s1', 's1x'], ['', 's1', 'm2', q(t, 's1s1', 's1s2'), 'xm1']).map(([a, b]) => ({ steps: [a, b].map((s) => s.match(/[sm]\d|x/g) ?? []), list: 1, fixed: 1, foreign: 1 })),
    bounds: 'two renders with lists of up to 2 values on one element, then the list emptied' },
  { name: 'values of components', harness: 'c14.mjs', witnesses: ['classes'],
    cases: (t) => product(q(t, ['-A', 'A-', 'AB', 'AA', 'A-A'], ['-A', 'A-', 'AB', 'BA', 'AA', 'BB', '-B', 'A-A', 'AB-', '-AB', 'ABA']), ['s2', 'm1', 'x'], ['s1', 'm2', 'x'], [0, 1]).map(([through, a, b, list]) => ({ through, steps: [a, b, a].slice(0, through.length).map((k) => list ? [k] : k), foreign: 1, fixed: list, list })),
    bounds: 'two or three values of up to two names, returned by components or not, one after the other in one hole' },
  { name: 'many names', harness: 'c14.mjs', witnesses: ['classes'],
    cases: (t) => [...product([['o5', 'o5'], ['w5', 'o5'], ['w5', 'w5'], ['o5', 'w4'], ['o8', 'x'], ['w8', 'E'], ...q(t, [['m111', 'x']], [['m111', 'm1']]), ['o3', 'w3', 'o3'], ['w3', 'w3', 'w3']], [0, 1]).map(([steps, turn]) => ({ steps: turn ? steps.map((k) => k[0] === 'm' ? k : k.replace(/[58]/, '4')) : steps, turn, foreign: 1 })), ...product([['w1', 'o1', 'w1', 'o1', 'w2'], ['o2', 'w1', 'x', 'o1']], [['o1'], ['w1', 'w1', 'o1', 'o1']]).map((steps) => ({ steps, list: 1, foreign: 1 }))],
    bounds: 'two or three values of up to 8 given names in any order, each there or not, up to 3 any names; lists of up to 5 values' });

// ---- C15 --------------------------------------------------------------------------------------
const PATTERNS = ['a?', '?b', 'a?b', '-?', 'webkit?', 'moz?x', 'ms?', 'o?', 'on?', 'Moz?'];
spec('C15', ['names requested by one render address different properties', 'style values are strings, null or undefined without priorities; custom properties are spelled in lower case', 'with arbitrary names the style declaration is replaced by a recorder of the calls (browsers drop unknown names)'],
  { name: 'names', harness: 'c15.mjs', witnesses: ['styles'],
    cases: (t) => product(PATTERNS, PATTERNS).filter(([a, b]) => t !== 'quick' || a === 'a?' || b === 'a?b' || a === b).map(([a, b]) => ({ steps: [[[a, 'v']], [[b, 'v']]] })).concat([['?', '?'], ['o?', '?B']].map(([a, b]) => ({ steps: [[[a, 's'], [b, 's']]] }))),
    bounds: 'one name replaced by another, with any letters or hyphens in their free places, including the vendor prefixes; any values of two letters' },
  { name: 'objects', harness: 'c15.mjs', witnesses: ['styles'],
    cases: (t) => { const S = ['x', [], [['a?', 'v']], [['a?', 'n']], [['a?', 'e']], [['a?', 's'], ['b?', 'v']], [['a?', 's'], ['a-?', 'n']], ...q(t, [], [[['a?', 's'], ['a-?', 's']]])]; return product(S, S).map((steps) => ({ steps })).concat(product(S.slice(2, 5), S.slice(2, 5), S.slice(0, 4)).map((steps) => ({ steps }))); },
    bounds: 'two or three values: null, undefined or objects with up to 2 properties, each any value, the empty string, null or undefined' },
  { name: 'shorthands', harness: 'c15.mjs', witnesses: ['styles'],
    cases: (t) => { const S = ['x', [['margin', 's']], [['marginTop', 's']], [['margin-top', 's'], ['marginLeft', 'v']], [['padding', 's'], ['marginTop', 'v']], [['paddingTop', 's'], ['margin', 'n']]]; return product(S, S).map((steps) => ({ steps })).concat(product(S, S, q(t, S.slice(1, 3), S)).map((steps) => ({ steps })), product(S, S).map((steps) => ({ list: 1, steps: steps.map((x) => x === 'x' ? [] : x.map((p) => [p])) }))); },
    bounds: 'two or three values, and lists of them, of the properties of two shorthands and some of their longhands, with any values' },
  { name: 'style text', harness: 'c15.mjs', witnesses: ['styles'],
    cases: () => { const S = ['x', 'color=red;--a=v', '--a=v;--b=v', '--b=s', '', [['--a', 'v']], [['--b', 'v'], ['color', 'blue']], [['backgroundColor', 'red']]]; return product(S, S).map((steps) => ({ steps, real: 1 })); },
    bounds: 'two values out of 8: style text and objects with any value of the custom properties' },
  { name: 'lists of values', harness: 'c15.mjs', witnesses: ['styles'],
    cases: () => { const S = [[], [[['a?', 's']]], [[['a?', 's']], [['b?', 's']]], ['x', [['a?', 's']]], [[['b?', 's']], [['a?', 's']]], [[['b?', 's']], 'x']]; return product(S, S).map((steps) => ({ steps, list: 1 })); },
    bounds: 'two renders with lists of up to 2 values on one element, then the list emptied' },
  { name: 'values of components', harness: 'c15.mjs', witnesses: ['styles'],
    cases: (t) => product(q(t, ['-A', 'A-', 'AB', 'AA', 'A-A'], ['-A', 'A-', 'AB', 'BA', 'AA', 'BB', '-B', 'A-A', 'AB-', '-AB', 'ABA']), ['x', [['a?', 's']], [['a?', 's'], ['b?', 'v']]], ['x', [['a?', 's']], [['b?', 'n']]], [0, 1]).map(([through, a, b, list]) => ({ through, steps: [a, b, a].slice(0, through.length).map((k) => list ? [k] : k), list }))
      .concat(product(['-A', 'AB'], ['color=red;--a=v', [['--a', 'v']]], ['--b=s', [['color', 'blue']], 'x']).map(([through, a, b]) => ({ through, steps: [a, b], real: 1 }))),
    bounds: 'two or three values of up to two properties, returned by components or not, one after the other in one hole' },
  { name: 'many properties', harness: 'c15.mjs', witnesses: ['styles'],
    cases: (t) => { const P = (n, k) => Array.from({ length: n }, (_, i) => ['abcdefgh'[i] + 'X', k]); return [{ steps: [P(5, '?'), P(5, '?')] }, { steps: [P(8, 's'), P(8, 's')], drop: 1, turn: 1 }, { steps: [P(8, 's'), P(3, '?'), P(6, 's')], drop: 1 }, { steps: [P(4, '?'), P(4, '?')], turn: 1 }, { steps: [P(7, '?'), 'x'] }, { steps: [P(3, '?'), P(3, '?'), P(3, '?')] }, { list: 1, steps: [P(5, 's').map((x) => [x]), P(2, 's').map((x) => [x])] }, { list: 1, steps: [P(2, 's').map((x) => [x]), P(6, 's').map((x) => [x])] }]; },
    bounds: 'two or three values of up to 8 given properties in any order, each with any value or none; lists of up to 6 values' });

// ---- C03 --------------------------------------------------------------------------------------
spec('C03', ['a live property whose value is NaN is written at every render (it never equals itself)', 'an object bound to a class, style or event is identical only if it is the same object'],
  { name: 'bindings', harness: 'c03.mjs', witnesses: ['unchanged'],
    cases: (t) => product(['attr', 'attrs', 'text', 'texts', 'prop', 'live', 'child', 'class', 'event', 'ref', 'list'], [0, 1]).map(([kind, own]) => ({ kind, own, steps: q(t, 1, 2) })).concat([{ kind: 'class', obj: 1, steps: 2 }, { kind: 'live', user: 1, steps: 1 }, { kind: 'ref', steps: 2 }, { kind: 'event', steps: 2 }]),
    bounds: 'two bindings of every kind; up to three renders, each value kept or replaced by any undefined/null/boolean/double/string (for classes, styles, listeners and references: any of their values)' },
  { name: 'trees', harness: 'c03b.mjs', witnesses: ['unchanged tree'],
    cases: (t) => product(['root', 'hole', 'inner', 'comp', 'list', 'deep']).map(([where]) => ({ where, bare: 1, len: 1, vocab: Object.keys({ P: 1, S: 1, T: 1, N: 1, W: 1, F0: 1, F2: 1, F2t: 1, C: 1, C0: 1, CF: 1, CD: 1, L0: 1, L2: 1, LF: 1, E: 1, E0: 1, EF: 1, EC: 1, H: 1, H0: 1, FF1: 1, FF3: 1, FC: 1 }), steps: q(t, 1, 2), change: 1 })),
    bounds: 'any of 24 subtrees in every kind of position, rendered twice with any of its texts changed' },
  { name: 'lists', harness: 'c03b.mjs', witnesses: ['unchanged tree'],
    cases: (t) => product(['root', 'inner', 'comp'], [2, 3], [0, 1]).map(([where, len, keyed]) => ({ where, len, keyed, vocab: ['P', 'C', 'F0', ...q(t, [], ['F2', 'EC'])], steps: 1, change: 1 })),
    bounds: 'lists of 2 or 3 subtrees, with and without any pairwise different keys' });

// ---- C29 --------------------------------------------------------------------------------------
spec('C29', ['property comparisons hold for an object and itself; those for which the order of their arguments matters are given the former properties first'],
  { name: 'skipping', harness: 'c29.mjs', witnesses: ['step'],
    cases: (t) => product(['custom', 'default', 'element', 'never'], q(t, ['root', 'frag'], ['root', 'hole', 'frag']), ['root', 'comp'], [['r', 'r', 's0'], ['r', 's0', 'r', 's0'], ['r', 'r+s0'], ['r', 's0+s1', 'r'], ['r', 'f0+r', 'r'], ['r', 's0:g+r:s', 'r'], ['r', 's0:t+r:b'], ['r', 's0:s+r:g', 's0']]).filter(([compare, where]) => t !== 'quick' || compare === 'custom' || where === 'root').map(([compare, where, via, acts]) => ({ compare, where, via, acts, kids: 2 })),
    bounds: 'two components with any properties, compared by value, by identity, never equal or as the same elements; up to 4 steps out of parent renders, state updates and forced updates, alone and together, with one or two priorities' },
  { name: 'updates of another priority', harness: 'c29.mjs', witnesses: ['step'],
    cases: (t) => product(['custom', 'default', 'never'], ['root', 'hole'], ['root', 'comp'], [['r', 's0:g+r:s'], ['r', 's0:t+s1:g+r:s'], ['r', 's0:b+s1:s'], ['r', 'f0:g+r:s', 'r'], ['r', 's0:t+r:s', 's0:g+r:s']]).map(([compare, where, via, acts]) => ({ compare, where, via, acts, kids: 2, early: 1 })),
    bounds: 'a synchronous update while others are pending at one or two other priorities, which are looked at before and after these are processed' },
  { name: 'comparisons in one direction', harness: 'c29.mjs', witnesses: ['step'],
    cases: (t) => product(q(t, ['root'], ['root', 'hole']), ['root', 'comp'], [['r', 'r', 'r'], ['r', 'r', 's0', 'r'], ['r', 'r+s0', 'r'], ['r', 'f0', 'r']]).map(([where, via, acts]) => ({ compare: 'order', where, via, acts, kids: q(t, 1, 2) })),
    bounds: (t) => `${q(t, 'a component', 'two components')} with a property comparison that holds unless the value has grown, any integers, up to 4 steps` },
  { name: 'positions', harness: 'c29.mjs', witnesses: ['step'],
    cases: (t) => product(q(t, ['hole'], ['root', 'hole', 'frag']), ['h', 'm', 't', ...q(t, [], ['ht', 'hm'])], [0, 1], [['r', 'r', 's0'], ['r', 'r', 's1'], ['r', 's1', 'r', ...q(t, [], ['s1'])]]).map(([where, siblings, moves, acts]) => ({ compare: 'custom', where, via: 'root', acts, kids: 2, siblings, moves })),
    bounds: 'the components change places and siblings come and go around them, then they replace their own content by any of 4 others' },
  { name: 'nested', harness: 'c29.mjs', witnesses: ['step'],
    cases: (t) => product(['custom', 'default'], ['root', 'hole'], ['r', 'P'], ['s0', 's0+P', 'f0+r']).map(([compare, where, a, b]) => ({ compare, where, via: 'comp', acts: ['r', a, b], kids: 2, nested: 1, siblings: 'h' })),
    bounds: 'components showing another component, under a parent that also re-renders by itself' });

// ---- C28 --------------------------------------------------------------------------------------
spec('C28', [],
  { name: 'removal', harness: 'c28.mjs', witnesses: ['removed'],
    cases: (t) => product(['one', 'frag', 'elem', 'list', 'portal', 'nest', 'two'], ['root', 'list', 'keyed', 'hole', 'other', 'comp', 'elem'], ['unmount', 'render'], ['no', 'before', 'after'], q(t, ['n'], ['n', 's', 'b'])).map(([shape, where, end, pending, opts]) => ({ shape, where, end, pending, opts, again: pending === 'no' ? 1 : 0 })),
    bounds: 'components with references, listeners and effects in 7 shapes (portals included) at 7 places, removed by unmounting or by a render without them, with and without their own updates pending, twice in a row' },
  { name: 'after failed updates', harness: 'c28.mjs', witnesses: ['removed'],
    cases: (t) => product(['one', 'frag', 'elem', 'list', 'portal', 'nest', 'two'], ['root', 'list', 'keyed', 'hole', 'other', 'comp', 'elem'], ['unmount', 'render'], ['other', 'middleware', 'handler'], ['gone', 'new']).filter((_, i) => t !== 'quick' || i % 5 < 2).map(([shape, where, end, failed, failing]) => ({ shape, where, end, pending: 'no', opts: 'n', failed, failing })),
    bounds: 'the same after an update (removing it or showing it anew) that was rendered but whose commit did not take place, because of a middleware, a commit handler or another root in the same batch' },
  { name: 'schedules', harness: 'c28b.mjs', witnesses: ['unmounted', 'shown'],
    cases: (t) => { const O = q(t, ['n', 's', 'b'], ['n', 's', 'b', 'v', 't', 'h']); return product(O, O).flatMap(([a, b]) => [['u' + a, 'R' + b], ['u' + a, 'x' + b], ['x' + a, 'u' + b], ['r' + a, 'x' + b], ['x' + a, 'r' + b], ['R' + a, 'u' + b]]).flatMap((acts) => q(t, [{ acts, mounted: 1 }], [0, 1].map((nested) => ({ acts, mounted: 1, nested })))).concat(['nn', 'ns', 'sn', 'bn', 'nb', ...q(t, [], ['ss', 'vn', 'nv', 'tn', 'nt'])].flatMap((p) => [['u' + p[0], 'x' + p[1], 'R' + p[0]], ['x' + p[0], 'u' + p[1], 'R' + p[1]], ['R' + p[0], 'x' + p[1], 'u' + p[0]], ['u' + p[0], 'R' + p[1], 'x' + p[1]]]).flatMap((acts) => [0, 1].map((mounted) => ({ acts, mounted, nested: 1 })))); },
    bounds: (t) => `two or three requests out of unmounting, rendering with and without a component and updates of that component, of ${q(t, 3, 6)} priorities, in every interleaving with the host's callbacks` },
  { name: 'requests from inside', harness: 'c28c.mjs', witnesses: ['shown', 'empty'],
    cases: (t) => product([['AO', 'AO'], ['LO', 'AO', 'LO'], ['AO', 'X', 'SO'], ['AO', 'EO', ...q(t, [], ['AO'])], ['LO', 'SO', 'UO']], [['render', 1], ['render', 2], ['effect', 1], ['effect', 2], ['cleanup', 1], ['ref', 1], ['unref', 1], ['outer', 1], ['outer-', 1], ['event', 1]], ['U', 'A', 'L', 'E', 'S'], q(t, ['n'], ['n', 's', 'g']), q(t, ['n', 's'], ['n', 's', 'g', 't'])).map(([acts, [point, nth], what, o, how]) => ({ acts: acts.map((a) => a.replace('O', o)), point, nth, what, how })),
    bounds: 'up to three root renders, unmounts and updates; at one of 10 points inside components (rendering, effects, references, listeners, their cleanups) another page, unmounting or an update is requested' });

// ---- C24 --------------------------------------------------------------------------------------
spec('C24', [],
  { name: 'failures', harness: 'c24.mjs', witnesses: ['failed', 'works'],
    cases: (t) => product(['', 'deep', 'portal', 'frag'], ['', 'keyed', 'hole'], [['*1B', '1B', '~1'], ['1B', '*1B', '1B'], ['1B', '*B1', 'B1'], ['1', '*1B', '~1', 'B1'], ['B1', '^', '1'], ['B1', '%', '%', 'B1', '~1'], ['B1', '*B', 'B1'], ['1B', '%', '~1', 'U', '1B'], ['1', '*B1', '*1B', '1B1']], q(t, ['any'], ['any', 'error', 'promise', 'object', 'former']), q(t, ['n'], ['n', 's', 'b', 't', 'h'])).filter(([, shape, steps]) => shape === '' || !steps.includes('1B1')).map(([at, shape, steps, error, opt]) => ({ at, shape, steps, error, opt, late: 1 })),
    bounds: 'a component throwing any undefined/null/boolean/double/string (also errors, promises, objects) in 4 kinds of place within 3 kinds of tree, at its mount, at a re-render from above and at its own update; sequences of 3 to 5 updates around it' },
  { name: 'failures of other updates', harness: 'c24.mjs', witnesses: ['failed', 'works'],
    cases: (t) => product(['', 'deep'], ['', 'keyed'], [['*1B', '1B'], ['1B', '*1B', '1B'], ['B1', '^', '1'], ['B1', '%', '%', 'B1']]).map(([at, shape, steps]) => ({ at, shape, steps, error: 'former', opt: 'n', late: 1 })),
    bounds: 'a component that throws the very error another failed update was rejected with' },
  { name: 'batches', harness: 'c24.mjs', witnesses: ['failed', 'works'],
    cases: (t) => product(['', 'deep'], ['', 'keyed', 'hole'], [['1B', '^+~1', '~1', '1'], ['1B', '%+~1', '=1'], ['B1', '~1+%', '=1', 'B1'], ['B12', '%+~1+~2', '=2', '~1', 'B12'], ['1B', '*1B+~1', '1B', '=1'], ['1B', '%+~1', '~1', '%', '=1']], [0, 1], q(t, ['n'], ['n', 's', 'b', 't'])).filter(([, shape, steps]) => shape !== 'hole' || steps[0] !== 'B12').map(([at, shape, steps, bail, opt]) => ({ at, shape, steps, bail, opt, error: 'error' })),
    bounds: 'updates of other components requested together with the failing one, then again with the same or another state, with and without skipping equal properties' },
  { name: 'failing now and then', harness: 'c24b.mjs', witnesses: ['failed', 'works'],
    cases: (t) => product([['s'], ['s', 'f'], ['s', 'r'], ['s', 't'], ['st', 's'], ['sr', 's']], [0, 1], q(t, ['n', 's'], ['n', 's', 'b', 't'])).map(([what, deep, opt]) => ({ what, deep, opt, steps: q(t, what.length > 1 ? 2 : 3, 3) })),
    bounds: (t) => `${q(t, 'two or three', 'three')} updates of a component of any of two states to any of 3 values, forced updates and renders from above, any of which may fail before, between or after its hooks or below it` },
  { name: 'failing effects, references and cleanups', harness: 'c24c.mjs', witnesses: ['failed', 'step'],
    cases: (t) => product(['', 'deep', 'hole', 'portal'], [['12*X1+', '12', '21'], ['12', '12*X1+', '~1', '1'], ['12', '21*X2-', '12'], ['12', '2*X1-', '12', '2'], ['21', '12*X1-*X2+', '~2+~1', '2'], ['12', '~1+~2*X1+*X2-', '~2', '12'], ['12', '3*X2-*X3+', '13', '31'], ['12', 'U*X1-', '21']], ['a', 'b', 'c', 'r', 'w'], q(t, ['n'], ['n', 's', 'g'])).filter(([shape, , x]) => x !== 'w' || shape === 'deep').map(([shape, steps, x, opt]) => ({ shape, steps: steps.map((a) => a.replaceAll('X', x)), opt })),
    bounds: 'three or four renders, updates and unmounts of up to two components with three effects and a reference each in 4 shapes, one or two of the effects, references or their cleanups throwing any value' },
  { name: 'failing bindings', harness: 'c24d.mjs', witnesses: ['failed', 'step'],
    cases: (t) => product(['', 'hole', 'comp'], [['12*1K', '12', '21'], ['1', '12*1K', '21', '2'], ['12', '21*2K', '12*2K', '1'], ['1', '21*2K*1K', '2'], ['12', '3*3K', '23']], ['event', 'style', 'ref', 'title', 'text', 'class', 'alt'], q(t, ['n'], ['n', 's'])).map(([shape, steps, k, opt]) => ({ shape, k, steps: steps.map((a) => a.replaceAll('K', k)), opt })),
    bounds: 'three or four renders of up to two items with bindings of seven kinds in 3 shapes, one or two of the values of which cannot be bound' });

// ---- C25 --------------------------------------------------------------------------------------
spec('C25', ['middleware is added and removed between updates, not while one is passing through'],
  { name: 'pipeline', harness: 'c25.mjs', witnesses: ['passed'],
    cases: (t) => [['+', '+', 'R', '-', 'x'], ['+', '+', '+', 'x', '-', 'R'], ['+', 'x+y', '+', 'R', '-', 'y:s'], ['+', '+', 'x:b+y', '-', 'R'], ['+', '+', '!x', 'y'], ['+', '+', '-', '=', '+', 'R'], ['R', '+', 'R:s', '-', 'R', '+', 'x'], ['+', '+', 'x:h', '-', 'y:h+x:t']].flatMap((steps) => [0, 1].map((again) => ({ steps, again, sub: again, pool: q(t, 3, 4) }))),
    bounds: (t) => `up to 3 registrations among ${q(t, 3, 4)} middleware, removed in any order (also the same one registered twice, and removed again), around root renders and state updates alone and in batches, with failing renders; passing on the update or a copy of it` },
  { name: 'many middleware', harness: 'c25.mjs', witnesses: ['passed'],
    cases: (t) => { const up = (...n) => n.map((k) => '+' + k); return product([[...up(0, 1, 2, 3, 4, 5, 6), 'x', '-', 'R', '-', 'y:s', '+', 'x+y'], [...up(7, 3, 5, 1, 0), 'x', '-', '-', '!x', '+', 'R'], [...up(0, 0, 1, 1, 0, 2), 'R', '-', 'x', '-', '=', 'y']], [0, 1]).map(([steps, sub]) => ({ steps, sub, pool: 8 })); },
    bounds: 'up to 7 registrations of 8 middleware, any two of them removed' },
  { name: 'logging and profiling', harness: 'c25b.mjs', witnesses: ['compared'],
    cases: (t) => product([['L'], ['P'], ['L', 'P'], ['P', '-', 'L']], [['R', 'x', 'R:s'], ['!x', 'x', 'R'], ['x+y', '!y+x', 'R'], ['#x', 'R', 'x'], ['x:h', '#y:s', 'y:t'], ['U', 'x+R', 'R'], ['x', '%x', 'R'], ['%y:s', 'R', 'x']]).map(([w, steps]) => ({ with: w, steps })),
    bounds: 'sequences of 3 steps of renders, state updates, unmounts, failing renders and failing commits with any error, with and without the middleware' },
  { name: 'failing middleware', harness: 'c25b.mjs', witnesses: ['compared'],
    cases: (t) => product([['L'], ['P'], ['L', 'P'], ...q(t, [], [['P', 'L']])], [['R', 'x'], ['x:s', 'R'], ['x+y', 'x'], ['U', 'R']], [1, 2]).map(([w, steps, fails]) => ({ with: w, steps, fails })),
    bounds: 'two steps with another middleware below them that throws any undefined/null/boolean/double/string before or after rendering or after committing' });

// ---- C27 --------------------------------------------------------------------------------------
spec('C27', ['nodes of different portals, and of a portal and others, in one container may be in any order among each other'],
  { name: 'one portal', harness: 'c27.mjs', witnesses: ['shown'],
    cases: (t) => product(['root', 'hole', 'only'], [['E', 'F'], ['E', 'C'], ['F', 'N'], ['D', 'X'], ['P', 'E']], [0, 1]).map(([where, kinds, own]) => ({ where, kinds, own: own && kinds.includes('C') ? 1 : 0, portals: 1, boxes: 1, optional: 1, steps: q(t, 2, 3), intrude: own, foreign: own })),
    bounds: (t) => `${q(t, 2, 3)} renders of a list with or without a portal, to either of two containers, with any of two children each (elements, lists, nothing, text, components that update by themselves, another portal), siblings coming and going, other content added to the container` },
  { name: 'two portals', harness: 'c27.mjs', witnesses: ['shown'],
    cases: (t) => product(['root', 'hole'], [['E'], ['F'], ['C']], [0, 1]).map(([where, kinds, boxes]) => ({ where, kinds, portals: 2, boxes, optional: 1 - boxes, moves: 1, mid: 1, own: t !== 'quick' && kinds[0] === 'C' ? 1 : 0, steps: 2 })),
    bounds: 'two renders of a list of two portals that change places and containers' });

// ---- C23 --------------------------------------------------------------------------------------
spec('C23', ['a component skipped by a render keeps seeing what was provided when it was last reached from above'],
  { name: 'providers', harness: 'c23.mjs', witnesses: ['injected', 'provided', 'default', 'missing'],
    cases: (t) => product([['R'], ['R', 'leaf'], ['R', 'mid'], ['R', 'R', 'leaf'], ['R', 'mid', 'leaf'], ['R', 'R mid', 'leaf'], ['R', 'mid leaf', 'leaf'], ['R', 'side', 'leaf', ...q(t, [], ['mid'])], ['R', 'top', 'mid']], [0, 1], [1, 2], [0, 1, 2], [0, 1]).filter((x) => !x[4] || (x[1] === 0 && x[2] === 1)).map(([steps, fallback, classes, m, stable]) => ({ steps, fallback, classes, stable, reads: m === 2 ? ['leaf', 'mid', 'leaf2'] : ['leaf'], throws: 1, gives: m === 0 ? { top: ['-', 'a', 's'], mid: ['-', 'a', 'b'], side: ['a'], side2: ['s'] } : m === 1 ? { top: ['as', 'sa'], mid: ['-', 'b'], leaf: ['-', 'a'] , side: ['s'] } : { top: ['ab'], mid: ['-', 'aa=', 's'], leaf: ['-', 's'], leaf2: ['a'] } })),
    bounds: 'components on 3 levels with siblings, each providing any of up to 3 combinations of instances of a class, a subclass and another class at each of up to 3 renders, from above (also skipping components) and of their own; with and without a default of any value' },
  { name: 'deep providers', harness: 'c23b.mjs', witnesses: ['provided', 'missing'],
    cases: (t) => [{ depth: q(t, 9, 11) }, { depth: 5, again: 1 }, { depth: 4, again: 2 }, { depth: 3, kinds: 3, each: 3 }, { depth: 2, kinds: 5, each: 4 }, { depth: 4, kinds: 2, each: 2, again: 0 }],
    bounds: (t) => `chains of up to ${q(t, 10, 12)} components, any of which provide, up to 4 instances each, of up to 5 classes; up to two updates of any of them that then provide or not` },
  { name: 'pending updates', harness: 'c23.mjs', witnesses: ['injected', 'provided'],
    cases: (t) => product([['R', 'leaf:g+R:s'], ['R', 'mid:t+R:s', 'leaf'], ['R', 'leaf:b+mid:s'], ['R', 'leaf:g+top:s', 'leaf'], ['R', 'leaf+R mid', 'R'], ['R', 'leaf:t+R:v leaf', ...q(t, [], ['leaf'])], ['R', 'leaf:b+mid:g+R:s']], [0, 1]).map(([steps, m]) => ({ steps, classes: m + 1, reads: ['leaf', 'mid'], gives: m === 0 ? { top: ['-', 'a', 's'], mid: ['-', 'a', 'b'] } : { top: ['as', 'sa'], mid: ['-', 'b'], leaf: ['-', 'a'] }, fallback: 1 - m })),
    bounds: 'updates of components pending while they are rendered from above or below another provider at another priority' });

// ---- C22 --------------------------------------------------------------------------------------
spec('C22', [],
  { name: 'schedules', harness: 'c22.mjs', witnesses: ['shown'],
    cases: (t) => [['a', 'R1', 'a'], ['R1', 'ab'], ['R2', 'a', 'b'], ['R1s', 'a', 'R3'], ['R1', 'a', 'U'], ['R4', 'ab'], ['R1', 'a', 'R5'], ['a', 'R2', 'R1'], ['R2', 'a', 'R0'], ['R5', 'a', 'a'], ['a', 'R1b', 'b'], ...q(t, [], [['R1s', 'a', 'R3s', 'b'], ['a', 'R4', 'a', 'b'], ['R1b', 'a', 'R2b', 'b']])].flatMap((acts) => q(t, [undefined, '1'], [undefined, '1', '2', '4']).map((start) => ({ acts, start, pages: SIGNAL_PAGES, map: SIGNAL_MAP }))),
    bounds: (t) => `up to ${q(t, 3, 4)} renders, writes of any values and unmounts in every interleaving with the host's callbacks, for components using signals and computed signals directly and through templates` },
  { name: 'writes while rendering', harness: 'c22.mjs', witnesses: ['shown'],
    cases: (t) => product([['R1'], ['R1', 'a'], ['R3', 'R1'], ['R6'], ['R1', 'R2', ...q(t, [], ['b'])]], ['inRender', 'inEffect', 'inCleanup'], ['A', 'B'], q(t, [undefined, '2'], [undefined, '1', '2', '4'])).filter(([acts, what]) => what !== 'inRender' || !acts.includes('R2')).map(([acts, what, k, start]) => ({ acts, [what]: k, start, pages: SIGNAL_PAGES, map: SIGNAL_MAP })),
    bounds: 'a component writes the signal it and others use while it renders, in its effect or in its cleanup' },
  { name: 'derivable signals', harness: 'c22.mjs', witnesses: ['shown'],
    cases: (t) => product([['R1', 'x'], ['x', 'R1', 'x'], ['R2', 'x'], ['R1s', 'x', 'R3'], ['R4', 'xy'], ['R1', 'x', 'U']], [0, 1], [undefined, '1']).map(([acts, draft, start]) => ({ acts, draft, start, derivable: 1, final: ['x'], pages: SIGNAL_PAGES, map: { A: 'x', B: 'dx', C: 'dx', T: 'x', V: 'dx', H: 'x', D: 'x' } })),
    bounds: 'a property of a derivable signal and a signal computed from the whole, written through the property or a draft' },
  { name: 'switching signals', harness: 'c22.mjs', witnesses: ['shown'],
    cases: (t) => [[['R5|Ab', 'a', 'b'], '5'], [['a', 'R5b|Ab', 'b'], '5'], [['R2|Tb', 'b'], '2'], [['b', 'R4|Ha'], '4'], [['R5|Asum'], '1']].map(([acts, start]) => ({ acts, start, final: ['a', 'b'], pages: SIGNAL_PAGES, map: SIGNAL_MAP })).concat([['a'], ['b', 'R5'], ['R5', 'b'], ...q(t, [], [['ab', 'b'], ['R3', 'a']])].map((acts) => ({ acts, start: '5', final: ['a', 'b'], twice: { A: 'b' }, pages: SIGNAL_PAGES, map: SIGNAL_MAP }))),
    bounds: 'a component that uses another signal at its next render, and components using two signals' });
const SIGNAL_MAP = { A: 'a', B: 'sum', C: 'top', T: 'a', V: 'sum', H: 'b', D: 'b' }, SIGNAL_PAGES = { 0: '', 1: 'AB', 2: 'TV', 3: 'BA', 4: 'CH', 5: 'A', 6: 'BAC' };

// ---- C30 --------------------------------------------------------------------------------------
spec('C30', [],
  { name: 'transitions', harness: 'c30.mjs', witnesses: ['settled', 'action', 'quiet'],
    cases: (t) => [['S'], ['A'], ['F'], ['T'], ['Ab', 'O'], ['Ae', 'Os'], ['Sk', 'Ob'], ['Tb', 'O'], ['S', 'S'], ['A', 'Sb'], ['A', 'A'], ['A', 'F'], ['F', 'S'], ['T', 'A'], ['Fb', 'Oh']].map((acts) => ({ acts })),
    bounds: 'up to two transitions whose actions finish at once, later, fail later or throw, setting state of one or two components, with other updates of several priorities, in every interleaving with the host; observed whenever the host has nothing to do but the actions' },
  { name: 'after many transitions', harness: 'c30.mjs', witnesses: ['settled', 'action', 'quiet'],
    cases: (t) => [...[['S'], ['A'], ['F'], ['Ab'], ['T']].map((acts) => ({ acts, skip: '?', most: q(t, 60, 120) })), ...product(['A', 'Ab', 'S'], [22, 23, 24], ['A', 'Sb', 'F'], [0, q(t, 1, 1000)]).filter(([, , , x]) => t !== 'quick' || x === 0).map(([a, j, b, skip]) => ({ acts: [a, 'J' + j, b], skip, sync: 0 }))],
    bounds: (t) => `one transition after up to ${q(t, 60, 120)} others, two with 22 to 24 others between them` },
  { name: 'deferred values', harness: 'c30.mjs', witnesses: ['settled', 'quiet'],
    cases: (t) => product([['V'], ['V', 'V'], ['V', 'Vs'], ['Vb', 'V'], ['V', 'S'], ['V', 'O', 'V'], ['Vs', 'Vs']], [0, 1, 2, 3]).map(([acts, m]) => ({ acts, deferred: 1, initial: m === 1 || m === 2 ? 1 : 0, initialFn: m === 2 ? 1 : 0, functions: m === 3 ? 1 : 0 })),
    bounds: 'up to three renders with any values of two priorities, transitions and other updates between them, with and without an initial value; values that are functions' });

// ---- C31 --------------------------------------------------------------------------------------
const PKG = { 'pkg:@swc/core': 'stubs/swc.mjs', 'pkg:node:fs/promises': 'stubs/fs.mjs', 'pkg:node:path': 'stubs/path.mjs' };
const RAW = [[97, 97], [60, 60], [62, 62], [32, 32], [10, 10], [13, 13], [92, 92]];
spec('C31', ['swc parses and prints programs faithfully (its trees of the example programs are part of the check)', 'white space is blank, tab, line feed and carriage return'],
  { name: 'text', harness: 'c31.mjs', stubs: PKG, witnesses: ['minified'],
    cases: (t) => product(range(0, q(t, 6, 8)), ['js']).map(([chars, ext]) => ({ ext, from: 1, to: 2, tags: 1, chars, where: 0, alphabet: RAW })).concat([{ ext: 'js', from: 1, to: 2, tags: 1, chars: 3, where: 1, alphabet: [...RAW, [9, 9], [36, 36]], id: 'raw2' }]),
    bounds: (t) => `any template text of up to ${q(t, 5, 7)} characters out of letters, brackets, white space and backslashes` },
  { name: 'programs', harness: 'c31.mjs', stubs: PKG, witnesses: ['minified', 'kept'],
    cases: (t) => [['js', 31], ['jsx', 1], ['ts', 10], ['tsx', 1]].flatMap(([ext, n]) => range(0, Math.ceil(n / 5)).flatMap((k) => range(0, 5).map((tags) => ({ ext, from: k * 5, to: k * 5 + 5, tags, empty: k % 2, names: ['html', 'x', 'y', 'svg', 'css', 'math', 'Html', 'htm'].slice(0, q(t, 6, 8)) })))),
    bounds: '43 programs with templates in every kind of statement and expression, their tags any of 6 to 8 names, 5 lists of configured tags' },
  { name: 'files', harness: 'c31.mjs', stubs: PKG, witnesses: ['transformed', 'failed', 'other files'],
    cases: (t) => range(0, q(t, 6, 8)).slice(1).map((files) => ({ files })),
    bounds: (t) => `any file name ending in up to ${q(t, 5, 7)} characters of ".jstxm", any file contents, failing at either step` });

// ---- C32 --------------------------------------------------------------------------------------
spec('C32', [],
  { name: 'external stores', harness: 'c32.mjs', witnesses: ['stored'],
    cases: (t) => product([['Ra', 'a'], ['a', 'Raa', 'a'], ['Rab:s', 'a', 'b'], ['Raa', 'a', 'U'], ['Rb', 'a', 'b'], ['Raa', 'a', 'Ra']], [undefined, 'a', ...q(t, [], ['ba'])], [0, 1, 2], q(t, [0], [0, 1])).map(([acts, start, m, bail]) => ({ kind: 'store', acts, start, inline: m === 1 ? 1 : 0, inlineGet: m === 2 ? 1 : 0, bail })),
    bounds: 'up to 3 renders, unmounts and changes of two stores in every interleaving with the host, any values, stable and new functions at every render' },
  { name: 'stores written while rendering', harness: 'c32.mjs', witnesses: ['stored'],
    cases: (t) => product([['Raa'], ['Raa', 'a'], ['Raab', 'Ra']], ['render', 'effect', 'cleanup'], [0, 1], [0, 1]).map(([acts, writes, writer, inline]) => ({ kind: 'store', acts, writes, writer, inline })),
    bounds: 'a component changes the store while it renders, in an effect or in a cleanup' },
  { name: 'stores written while rendering again', harness: 'c32.mjs', witnesses: ['stored'],
    cases: (t) => product([['a'], ['Raa'], ['a', 'a']], ['a', 'aa'], ['later', 'after'], q(t, [0, 1, 'all'], [0, 1, 'all']), q(t, [0], [0, 1])).filter(([, start, , writer]) => writer !== 1 || start === 'aa').map(([acts, start, writes, writer, inline]) => ({ kind: 'store', acts, start, writes, writer, inline })),
    bounds: 'a mounted component changes the store in its second render or after its second commit' },
  { name: 'changing subscriptions', harness: 'c32.mjs', witnesses: ['stored'],
    cases: (t) => product([['RA', 'A'], ['RA', 'A', 'A'], ['RAa', 'a'], ['RA:s', 'A'], ['RA', 'A', 'Ra'], ...q(t, [], [['RAa', 'A', 'RaA']])], [undefined, 'a', 'aA'], [0, 1]).map(([acts, start, inlineGet]) => ({ kind: 'store', acts, start, channels: 1, inlineGet })),
    bounds: 'renders that move to another subscription of the same snapshots, changes announced only to the subscriptions of the latest requested render' },
  { name: 'changing snapshots', harness: 'c32.mjs', witnesses: ['stored'],
    cases: (t) => product([['RA'], ['RA', 'A'], ['RA', 'A', 'a'], ['RAa', 'A'], ['RA:s', 'A'], ['RA', 'A', 'Ra'], ...q(t, [], [['RAa', 'A', 'RaA']])], [undefined, 'a', 'aA'], [0, 1], [null, 'again']).map(([acts, start, inlineGet, writes]) => ({ kind: 'store', acts, start, parts: 1, inlineGet, writes, writer: 'all' })),
    bounds: 'renders that move to another part of the same store, with changes of both parts in every interleaving with the host, also while rendering' },
  { name: 'effect events', harness: 'c32.mjs', witnesses: ['event'],
    cases: (t) => product([2, 3], [null, 1, 0]).map(([steps, bomb]) => ({ kind: 'event', steps, bomb })),
    bounds: 'up to 3 renders with any of 3 callbacks, one of them failing; any argument' },
  { name: 'imperative handles', harness: 'c32.mjs', witnesses: ['handle'],
    cases: (t) => product([[0, 1], [0, 'n'], ['u', 0]], ['some', 'none'], [0, 1], [0, 1], [0, 1]).map(([targets, deps, fnRef, cleanup, ndeps]) => ({ kind: 'handle', steps: q(t, 3, 4), targets, deps, fnRef, cleanup, ndeps })),
    bounds: 'sequences of renders with any target out of two (references, functions with and without a cleanup, nothing) and any dependency' });

// ---- C16 --------------------------------------------------------------------------------------
spec('C16', [],
  { name: 'compositions', harness: 'c16.mjs', witnesses: ['composed'],
    cases: (t) => { const D = [['v'], [['v']], ['l'], [[]], ['v', 'v'], ['v', 'l'], ['l', 'v'], [['v'], 'v'], ['l', 'l'], [['v'], 'l'], ['l', ['v']], [['v', 'v']], [[['v'], 'l']], [['l']], [['v'], ['v']], [[], ['v']], [['v', 'v'], 'l'], ['l', ['v', 'v']], ['v', ['l', 'v']], ['v', 'l', ['v']], [['v'], 'l', 'v'], ['l', 'l', ['v']], []]; return product(D, D).filter(([a, b]) => a.length === b.length).flatMap((seq) => [{ seq, lens: [1] }, ...(t === 'quick' ? [] : [{ seq, lens: [0, 1], modes: ['svg', 'html', 'math'] }, { seq, lens: [1, 0, 2] }])]).concat(D.filter((a) => a.length === 2).map((a) => ({ seq: [['l', 'l'], a, ['l', 'l'], a], lens: [q(t, 0, 1), 1] })), D.map((a) => ({ seq: [a], lens: [0, 1], text: 1, modes: ['svg', 'html', 'math'] }))); },
    bounds: (t) => `one to four compositions of the same template out of 23 shapes with up to 3 holes, nested up to 3 deep; every string any of up to ${q(t, 1, 2)} characters out of 3, values any` },
  { name: 'rendering', harness: 'c16b.mjs', witnesses: ['rendered', 'in place'],
    cases: (t) => [{ steps: q(t, 3, 4), kinds: ['i', 'u', 'l', 'e', 'n', 'h'] }, { steps: 2, two: 1, kinds: ['i', 'u', 'l', 'e', ...q(t, [], ['n', 'h'])] }],
    bounds: 'sequences of renders composed from any of 6 partials at one or two holes' });

// ---- C17 --------------------------------------------------------------------------------------
spec('C17', ['templates whose content the HTML parser does not move elsewhere, as it does with text in tables'],
  { name: 'text', harness: 'c17.mjs', witnesses: ['rendered', 'holes'],
    cases: (t) => [...product([['t', 'h', 't'], ['', 't', 'c', 't'], [['', 't', 'h'], 't'], ['t', 'm', 'h']], ['html', 'svg', 'math']).map(([sk, mode]) => ({ sk, mode, styles: 1 })), ...[['t', 'h', 't', 'h', 't'], ['h', 'h', 't'], ['t', 'h', 'h', 't'], ['t']].map((sk) => ({ sk, mode: 'text', chars: sk.length > 4 ? q(t, 1, 2) : 2 })), { sk: ['t'], chars: q(t, 4, 5) }, { sk: ['h', 't', 'h'], chars: q(t, 4, 5), insts: 1 }],
    bounds: 'static text of up to 4 characters, any out of letters, blanks and line breaks, around holes' },
  { name: 'places', harness: 'c17.mjs', witnesses: ['rendered', 'holes'],
    cases: (t) => [...product([['1hcmn', '1hcmn', '1hcmn'], [['', '1hcmn', '1hcmn'], '1hc'], ['1hc', ['', '1hcmn'], '1hcmn'], [['', ['', '1hcn', '1hcn'], '1hcn'], 'hc'], [['', ['', ['', 'hc']], 'hcn'], 'hc'], [['', 'hcn', ['', 'hcn', ['', 'hcn'], 'hcn'], 'hcn'], 'hcn'], ['hcn', ['', ['', 'hcn'], ['', 'hcn'], ['', 'hcn']], 'hcn']], q(t, ['html'], ['html', 'svg', 'math'])).map(([sk, mode]) => ({ sk, mode, styles: 1 })), { sk: [['', 'hc'], 'c'], styles: 5 }, { sk: ['c', ['', 'c']], mode: 'svg', styles: 5 }],
    bounds: (t) => `trees of up to 7 nodes nested up to 5 deep${q(t, '', ' in html, svg and mathml')}, every leaf static text, a text hole, a child hole, a comment or nothing; child holes in 5 notations` },
  { name: 'attributes', harness: 'c17.mjs', witnesses: ['rendered', 'holes'],
    cases: (t) => [...product([[['sn,tpelr,sbn']], [['tpelr,stpeln'], 'h'], ['hc', ['stpelrn', 'hcn'], ['stpelrn']], [['st', ['pelr', ['trn', 'hc']], 'hc'], ['te']], [['s,r,t'], ['r,e'], ['t,r', 'h', ['r']]], [['t,p,e,l', 'h', ['t,p,e,l', 'c']], ['e,t']]], q(t, ['html', 'svg'], ['html', 'svg', 'math']), [0, 1]).map(([sk, mode, breaks]) => ({ sk, mode, breaks, styles: q(t, 2, 4) })), ...product([[['v']], [['s,v,t'], ['v', 'h']], [['t', ['v'], ['t,v']]], [['sn,v,r,tpel']]], ['html', 'svg']).map(([sk, mode]) => ({ sk, mode, styles: 4 })), { sk: [['c,y,t']], styles: 4 }, { sk: [['C,Y'], 'h', ['tCY']], styles: 4 }, { sk: [['c'], ['y', ['c', 'h'], ['y,s,c']]], styles: 4 }],
    bounds: 'elements with up to 4 attributes, every one static, bare, an attribute, property, live, event or reference binding, quoted in 4 ways, names in mixed case, class and style, names that the parser changes the case of' },
  { name: 'elements', harness: 'c17.mjs', witnesses: ['rendered', 'holes'],
    cases: (t) => [[[':textarea', 'xhwn', 'xhw', 'xhn']], [[':title', 'xhw', 'hx'], 'h'], [['t:style', 'xh', 'xhn'], 'c'], [[':select', ['t:option', 'hx'], 'cwn', ['n:option', 'h']]], [[':table', 'cwn', [':tbody', 'cwn', ['t:tr', 'cwn', ['tn:td', 'hcx'], 'c'], 'cwn']]], [[':ul', 'w', ['t:li', 'hc'], 'w', ['n:li', 'hcn'], 'w']], ['h', ['t,p:input'], 'hc', [':br'], 'hx'], [[':p', 'x', ['t:b', 'h'], 'hc', ['r:em', 'h']], 'h'], [[':pre', 'xh', 'hx', 'x'], 'c'], [['t:script', 'xh'], 'h'], [['r:button', ['tn:svg', 'hc'], 'h'], 'c'], [['n:x-y', ['t,r:slot', 'hc']], 'c'], [['tn:h1', 'h', ' hc', 'h']], [['n:details', ['n:summary', 'h'], 'hcx'], ' ', 'hc']].map((sk) => ({ sk, styles: 2 })),
    bounds: '14 trees with elements whose contents are parsed in their own way' },
  { name: 'many holes', harness: 'c17.mjs', witnesses: ['rendered', 'holes'],
    cases: (t) => { const R = (n, x) => Array(n).fill(x); return product([[Array(13).fill('t').join()].map((x) => [x]), R(12, ['', 'h']), R(13, 'c'), [['', ...R(12, ['', 'h'])], 'h'], [['t', ...R(6, ['p', 'h']), 'c'], 'h'], [[R(5, 't,p,e').join(), 'h'], 'c'], [['', ['', ['', ['', ['', ['', ['', ['', ['', ['t', 'h'], 'h'], 'h'], 'h'], 'h'], 'h'], 'h'], 'h'], 'h'], 'h'], 'h'], [...R(10, ['b,t']), ['tpelrn', 'hc'], 'hc'], [...R(10, 'x'), 'h', ...R(10, ['b']), ['s'], 'hc'], [['t', ['e', 'c'], ['r'], 'c'], ...R(4, ['l', 'h', ' ']), 'm', 'c', ...R(4, ['t,r', 'c'])], R(40, ['', 'h']), [R(36, 't').join()].map((x) => [x])], q(t, ['html'], ['html', 'svg', 'math']), [1, q(t, 1, 2)]).filter(([, , s], i) => t !== 'quick' || i % 2 === 0).map(([sk, mode, styles]) => ({ sk: mode === 'svg' ? JSON.parse(JSON.stringify(sk).replaceAll('["",["', '[":g",["')) : sk, mode, styles, insts: 1, chars: 1 })); },
    bounds: 'twelve templates of 12 to 40 holes side by side, in one element, or nested up to 10 deep' },
  { name: 'unmatched holes', harness: 'c17.mjs', witnesses: ['rejected'],
    cases: (t) => product([0, 1], [0, q(t, 1, 2)], ['s', 'f']).map(([first, chars, values]) => ({ bad: 1, first, chars, values, around: ['n', 'h', 'a', 'c', 'r', 'e'].slice(0, chars ? 3 : 6) })),
    bounds: 'holes in 23 places where none is supported, between holes of any kind' });

// ---- C18 --------------------------------------------------------------------------------------
const ROUTES = [
  ['k', 'm', 'n'], ['kk', 'km', 'mk'], [['k', ['k', 'm']], 'kn'], [['m', ['k']], 'nn'], [['m', ['x', 'm']], ['n', ['m', 'n']]], [['!m', ['m', ['k', ['m']]]], 'n', 'nnn'], ['z', ['z', ['k']], 'nz'], [['', ['k', ['m', ['m']]]], 'n'], [['k', ['', 'm']], 'm'],
  [['m', [['m', [['m', ['x']], 'm']], ['m', ['n']]]], ['n', ['nn']]], ['f', ['f', ['f']], 'ff'], ['w', ['e', ['w', 'e']]], ['mm', ['m', ['m', 'nn']], 'nnn'], [['!k', ['k']], ['!n', ['n']], ['n', ['n']]], ['!m', 'n'], ['nx', ['nm', ['m']], ['n', ['xm', 'mn']]], [], [['n', [['n', [['n', ['n']]]]]], 'nmnm'],
];
spec('C18', ['a matching route without a resolver gives nothing, also when a later route would match'],
  { name: 'routes', harness: 'c18.mjs', witnesses: ['none', 'matched', 'captured'],
    cases: (t) => product(ROUTES, range(0, q(t, 5, 7))).map(([table, len]) => ({ table, len })).concat([{ table: ROUTES[4], len: 3, twice: 1 }, { table: ['n', 'e'], len: 1, undef: 0 }, ...range(1, q(t, 4, 6)).map((len) => ({ table: ['i', ['i', ['i', 'n']], 'in'], len, digits: 1 }))]),
    bounds: (t) => `18 tables of up to 9 routes nested up to 4 deep, with any text and matchers for patterns; every URL of up to ${q(t, 5, 7)} characters out of two letters and the slash` },
  { name: 'large tables', harness: 'c18.mjs', witnesses: ['none', 'matched', 'captured'],
    cases: (t) => { const nest = (n, f) => n === 0 ? f(0) : [f(n), [nest(n - 1, f)]], R = (n, x) => Array(n).fill(x), path = (n) => '/?'.repeat(n); return [...[[...R(24, 'k'), 'n'], [...R(12, 'm'), ...R(12, 'w'), 'e'], R(4, ['k', ['k', 'm']]), [['k', R(3, 'k')], ['m', R(2, 'm')], ['n', [...R(9, 'k'), 'n']]], R(16, '!k'), [['n', R(6, ['x', ['n']])], ['m', ['m', 'n']]]].flatMap((table, i) => [1, 2].filter((n) => n === 1 || [2, 3, 5].includes(i)).map((n) => ({ table, url: path(n) }))), ...range(7, 10).flatMap((n) => [{ table: [nest(7, () => 'n'), ['n', [nest(8, (i) => i % 2 ? 'k' : 'n')]]], url: path(n) }, { table: ['nnnnnnnnn', 'nmnmnmnm', nest(3, () => 'kn'), nest(4, () => 'nn')], url: path(n) }]), { table: ['k', 'kk', 'kkk', 'kkkk', 'kkkkk', 'kkkkkk', 'kkkkkkk', 'nnnnnnn'], url: path(7) }, { table: [nest(4, () => 'm'), nest(5, (i) => i > 3 ? 'm' : 'z')], url: '/?/?//' }, { table: [nest(4, () => 'm'), nest(4, (i) => i > 2 ? 'm' : 'z'), 'nnz'], url: '?/?/' }]; },
    bounds: 'tables of up to 25 routes side by side or nested up to 10 deep, with any text and matchers; URLs of up to 10 components of any of two letters' },
  { name: 'matchers', harness: 'c18b.mjs', witnesses: ['accepted', 'refused'],
    cases: (t) => [...range(0, q(t, 4, 6)).map((len) => ({ kind: 'integer', len })), ...range(6, q(t, 7, 9)).map((len) => ({ kind: 'integer', len, ranges: [[45, 45], [48, 57]] })), { kind: 'integer', big: 1, text: ['NaN', 'Infinity', '-Infinity', '1e21', '1e3', '0x10', '9007199254740991', '9007199254740993', '100000000000000000000', '1000000000000000000000', '-9007199254740992', '١', '1_0', '1n', ' 1', '1 ', '+1', '-0', '.5', '5.', '5.0', 'null', 'undefined', 'true'] }, ...product(range(0, 3), range(0, 3)).map(([len, klen]) => ({ kind: 'keyword', len, klen })), ...range(0, 3).map((n) => ({ kind: 'choice', n })), { kind: 'select' }, ...range(0, 3).map((len) => ({ kind: 'encoded', len })), ...range(0, q(t, 4, 5)).map((len) => ({ kind: 'regexp', len })), ...['', 'c', '%', 'cc', 'c%', '%c', ...q(t, [], ['%%', 'c%c'])].map((mask) => ({ kind: 'decoded', mask }))],
    bounds: (t) => `components of up to ${q(t, 4, 6)} characters out of all ASCII (up to ${q(t, 7, 9)} digits); escapes of one byte; results of alternatives of any kind` });

// ---- C19 --------------------------------------------------------------------------------------
const MEMORY = ['', 'i', 't', 'n', 'e', 'is', 'ii', 'r', 'o', 'oi', 'p', 'q', 'u'];
spec('C19', ['characters that URLs leave as they are', 'download requests are not same-document hash changes', 'listeners are distinct functions; one added while a navigation is announced may or may not be told of it'],
  { name: 'events', harness: 'c19.mjs', witnesses: ['told', 'ignored'],
    cases: (t) => product([0, 1], [['', ''], ['x', ''], ['x?x', ''], ['', '#x'], ['x?', '#x'], ['x', '#'], ['x', '#/x'], ['', '##x'], ['x?x?', '#x#x'], ['x/x', '#x?x']], [[1, 1], [2, 1], [2, 2]]).map(([hash, [path, frag], [listeners, events]], k) => ({ kind: 'events', hash, path, frag, listeners, events, intercept: k % 2 ? 0 : undefined, dflt: k % 5 === 0 ? 1 : 0, part: k % 7 === 0 ? 1 : 0 })),
    bounds: 'any two events in a row: every combination of flags, 3 download requests, 4 types, any state, URLs of 10 shapes; up to 2 listeners, any of them unsubscribed in between' },
  { name: 'navigating', harness: 'c19.mjs', witnesses: ['navigated', 'failed'],
    cases: (t) => product([['/', '/', 'x'], ['/a?b#c', '/p#', 'x/x?x#x'], ['/a#b', '/a#/b?c', '/x'], ['/?a', '/a##b', 'x?x']], [0, 1], [undefined, 'handler'], [0, 1]).map(([[b, h, shape], hash, fails, noOptions]) => ({ kind: 'navigate', start: hash ? h : b, shape: hash && shape === 'x/x?x#x' ? '#x#' + shape : shape, hash, fails, noOptions, steps: q(t, 2, 3) })),
    bounds: (t) => `up to ${q(t, 2, 3)} navigations to URLs of 4 shapes with any state and history option, completing later or failing` },
  { name: 'in memory', harness: 'c19.mjs', witnesses: ['navigated', 'failed', 'waiting', 'overlapping'],
    cases: (t) => [...[['go', 'go'], ['l', 'go'], ['l', 'go', 'go'], ['l', 'l', 'go'], ['l', 'l', 'u0', 'go'], ['l', 'l', 'go', 'u1', 'go'], ...q(t, [], [['l', 'l', 'l', 'go'], ['l', 'l', 'go', 'l', 'go']])].flatMap((ops) => [{ kind: 'memory', ops, does: ops.length > 3 ? ['', 'i', 't', 'e', 'r', 'q', 'p', 'o', '+', ...q(t, [], ['n', 'oi'])] : MEMORY }]), { kind: 'memory', ops: ['l', 'go'], does: ['', 'i'], noOptions: 1 }, { kind: 'memory', ops: ['l', 'go', 'go'], does: ['', 'i'], lens: 1 }, { kind: 'memory', ops: ['l', 'two', 'go'], does: ['', 'i', 'ii'] }, { kind: 'memory', ops: ['l', 'l', 'u0', 'two'], does: ['i'] }],
    bounds: (t) => `up to ${q(t, 2, 3)} listeners added, removed and told in up to 2 navigations with any URL of up to 2 characters, any state and history option; every listener one of 13 that intercept, fail, or take off themselves or others` },
  { name: 'components', harness: 'c19.mjs', witnesses: ['shown'],
    cases: (t) => product([undefined, 'none', 'options', 'after', 'ignore'], [0, 1], [undefined, 0, 1]).filter(([, inner, swap]) => inner || swap !== 0).map(([intercept, inner, swap]) => ({ kind: 'component', intercept, inner, swap, steps: q(t, 2, 3) })),
    bounds: (t) => `up to ${q(t, 2, 3)} navigations to any URL and state with a component in step with them, that may be given another adapter in between, with every kind of interceptor` });

// ---- C20 --------------------------------------------------------------------------------------
const GRAPHS = { atom: ['a'], acc: ['x'], map: ['a', 0], diamond: ['a', 'a', [0, 1], [2, 0], 3], twice: ['a', [0, 0], [1, 0, 1]], deep: ['a', 'x', 0, [2, 1], [3, 2], 4], none: ['a', [], [1, 0]] };
const BIG = { chain: ['a', 0, 1, 2, 3, 4, 5, 6, 7, 8], wide: ['a', 'a', 'x', 'a', 'a', 'a', 'a', [0, 1, 2, 3, 4], [5, 6, 0, 1, 2], [7, 8, 0, 1, 2, 3, 4, 5, 6]], ladder: ['a', [0, 0], 1, [2, 1], 3, [4, 3], 5, [5, 0], 7, 8], mixed: ['a', 'x', [0, 1], 'a', [2, 3], 4, 'x', [5, 6], 7, [8, 2, 5]] };
const BEHAVES = [null, 'off', 'next', 'prev', 'both', 'all', 'llb', 'on', 'swap', 'write', 'set'];
spec('C20', ['a subscriber added while a write notifies may or may not be told of that write', 'accessors return what was last set'],
  { name: 'computed values', harness: 'c20.mjs', witnesses: ['same', 'changed'],
    cases: (t) => product(Object.values(GRAPHS), ['atom', 'num', 'any'], [['?'], ['?', 'r', '?'], ['?', '?'], ['?', '?', 'r', '?'], ...q(t, [], [['?', '?', '?', '?', 'r', '?']])], [0, 1]).map(([graph, values, ops, first]) => ({ graph, values, ops, first, behaves: [null] })),
    bounds: (t) => `graphs of up to 6 signals with shared and repeated dependencies, reads between up to ${q(t, 3, 5)} writes of any values` },
  { name: 'subscribers', harness: 'c20.mjs', witnesses: ['same', 'changed', 'off'],
    cases: (t) => Object.entries(GRAPHS).flatMap(([g, graph]) => { const n = graph.length - 1; return [['s0', 's' + n, 'w0'], ['s' + n, 's' + n, 's0', 'w0', 'w0'], ['s0', 's' + n, 's0', 'u1', 'w0'], ['s' + n, 'U0', 's' + n, '?', '?'], ['s0', 's0', 's0', ...q(t, [], ['s' + n]), '?']].map((ops) => ({ graph, values: 'atom', ops, behaves: BEHAVES })); }),
    bounds: 'up to 3 subscribers at any of two signals that take off themselves, others or all, subscribe anew or write while they are notified' },
  { name: 'large graphs', harness: 'c20.mjs', witnesses: ['same', 'changed'],
    cases: (t) => product(Object.values(BIG), [['?', 'r', '?'], ['?', '?', ...q(t, [], ['?'])], ['q9', '?', '?'], ['q4', 'q9', '?', 'U0', '?'], ['q9', '?', '?', '?', '?', 'r', '?']]).filter(([g, o]) => o.length < 7 || g.filter((x) => x === 'a' || x === 'x').length === 1).map(([graph, ops]) => ({ graph, values: 'atom', ops, behaves: [null] })),
    bounds: 'graphs of 10 signals: a chain, two levels of many dependencies, a ladder of diamonds, interleaved sources; 2 writes to any of them (5 with a single source)' },
  { name: 'many subscribers', harness: 'c20.mjs', witnesses: ['same', 'changed', 'off'],
    cases: (t) => product([['a'], ['a', 0], ['a', 'a', [0, 1]]], range(0, q(t, 9, 16))).flatMap(([graph, at]) => { const n = graph.length - 1, subs = [...range(0, q(t, 9, 16))].map((i) => (i === at ? 's' : 'q') + n); return [[...subs, '?', '?'], [...subs, 'u' + at, '?', 'U' + (at ? at - 1 : 3), '?']].map((ops) => ({ graph, values: 'atom', ops, behaves: BEHAVES })); }),
    bounds: (t) => `${q(t, 10, 17)} subscribers at a signal, one of which takes off itself, others or all, subscribes anew or writes while it is notified, or is taken off` });

// ---- C21 --------------------------------------------------------------------------------------
const TREE = { a: '*', n: { x: '*', m: { y: '*' } } }, LIST = { l: ['*', { x: '*' }, '*'], o: { x: '*' } };
const DRAFT = ['= a', '= n.x', '= n o', '= zz', '= n.m e', '- a', '- n', '- n.x', 'r a', 'r n.x', 'r zz', '? zz', '? a', 'k n', 'k /', 'd a', 'all'], DRAFT2 = ['= n.x', '= n o', '= zz', '- n', '- zz', 'r zz', 'k /', 'k n', 'K /'];
const PROPS = ['= a', '= n o', '= n n', '= n.x', '= n.m.y', '= zz', '= n.x o', '= /', '- a', '- n', '- n.x', '- n.m', 'r a', 'r n', 'r n.x', 'r n.m.y', 'r zz', 'h n.x', 'h n', 'w', 'hr', 'v'];
const ARRAYS = ['push l', 'pop l', 'shift l', 'unshift l', 'splice l', 'cut l', 'rev l', 'filter l', 'map l', 'each l', 'swap l', '= l.0', '= l.1.x', 'r l.1', 'k l', 'all'], LENGTHS = ['app l', 'len l', 'len0 l', 'len1 l', 'push l', '= l.5', '- l.5', '= l.0', 'r l.1', 'r l.2', 'k l', 'K l', '? l.1', 'all'];
const GSET = ['= f t', '= f f', '= a', '= b', '= n.x', '= n o', '= n.zz', '- n.x', '- a', '= both', '= add', '= l l', 'v'], GREAD = ['pick', 'pair', 'deep', 'both', 'count', 'keys', 'has', 'twice', 'add'];
spec('C21', ['one object is in one place only, apart from drafts that are moved within one scope; a draft is not written to after it was moved', 'values that getters return are not written to, and getters are not deleted', 'notifications of writes through accessors and drafts, and of the same value, may be more than one', 'the order of keys is left open'],
  { name: 'properties', harness: 'c21.mjs', witnesses: ['looked', 'kept'],
    cases: (t) => [{ shape: TREE, steps: q(t, 3, 4), ops: PROPS }, { shape: { l: [{ x: '*' }, '*'] }, steps: 3, ops: ['= l.0', '= l.0.x', '= l.1 o', '= l.3', '= l l', '= l.length *'.slice(0, 0) || 'r l.length', '- l.0', 'r l.0.x', 'r l', 'h l.0.x', 'w', 'hr', 'v'] }],
    bounds: (t) => `all sequences of ${q(t, 3, 4)} reads, writes, deletions through new and kept properties of any of 8 places` },
  { name: 'notifications', harness: 'c21.mjs', witnesses: ['looked', 'eager'],
    cases: (t) => [{ shape: TREE, steps: q(t, 2, 3), ops: PROPS, eager: 1 }, { shape: { l: [{ x: '*' }, '*'] }, steps: 2, eager: 1, ops: ['= l.0', '= l.0.x', '= l.1 o', '= l.3', '= l l', '- l.0', '- l', 'v'] }],
    bounds: (t) => `subscribers of the property and all that contain it that read everything while they are notified, over all sequences of ${q(t, 2, 3)} of the same` },
  { name: 'drafts', harness: 'c21.mjs', witnesses: ['looked', 'kept'],
    cases: (t) => [
      { shape: TREE, script: [['.', 'v', 'r n', '= n.x', '= n o', '- a', 'r zz'], [['', DRAFT, 0, 2]], ['.', 'v'], ...q(t, [['.', '= n.x', 'r n.x', '- n']], [[['', DRAFT2, 1, 1]]])] },
      { shape: TREE, script: [[['', DRAFT, 0, 1]], [['n', ['= x', '= zz', '= m.y', '- m', 'r x', 'k /', 'all'], 1, 2]], [['', DRAFT2, 0, 1]]] },
      { shape: TREE, script: [[['', DRAFT2, 0, q(t, 3, 4)]]] },
    ],
    bounds: (t) => `up to 3 scopes of up to ${q(t, 3, 4)} of 17 operations on the draft, with other operations between them` },
  { name: 'kept drafts', harness: 'c21.mjs', witnesses: ['looked'],
    cases: (t) => [{ shape: TREE, steps: 1, inner: q(t, 4, 5), ops: [['', ['keep n', '= n o', '= n.x', '- n', '= x * n', 'r x * n', '- x * n', '= m.y * n', 'all']]] }],
    bounds: (t) => `all sequences of ${q(t, 4, 5)} operations on a draft and a draft of a part of it kept while the part is replaced` },
  { name: 'arrays', harness: 'c21.mjs', witnesses: ['looked', 'kept'],
    cases: (t) => [{ shape: LIST, script: [['.', 'v', 'r l.1', '= l.0', '- l.1'], [['', ARRAYS, 0, 2]], ['.', 'v'], ...q(t, [], [[['', ARRAYS, 0, 1]]])] }, { shape: { l: [{ x: '*' }, { x: '*' }, { x: '*' }] }, script: [[['', ARRAYS, 0, 1]], [['', ARRAYS, 0, 2]]] }, { shape: { l: [] }, script: [[['', ['push l', 'pop l', 'push l o', 'each l', 'rev l', 'r l.0', 'len l', 'all'], 0, q(t, 4, 5)]]] }],
    bounds: 'up to 3 array methods, assignments and loops on lists of up to 3 objects or other values in drafts' },
  { name: 'array lengths', harness: 'c21.mjs', witnesses: ['looked'],
    cases: (t) => [{ shape: LIST, steps: 2, inner: 2, ops: ['.', 'v', '= l.4', ['', LENGTHS]] }],
    bounds: 'all pairs of scopes of two operations on elements and the length' },
  { name: 'elements with subscribers', harness: 'c21.mjs', witnesses: ['looked', 'told'],
    cases: (t) => [LIST, ...q(t, [], [{ l: ['*', { x: '*' }] }]), { l: ['*', '*', '*', '*'] }].flatMap((shape) => ['l.0', 'l.1', 'l.2', 'l.3', 'l.length'].map((e) => ({ shape, script: [['s ' + e], [['', ARRAYS.slice(0, 7).concat(ARRAYS.slice(10, 13), LENGTHS.slice(0, 5), '= l.2 o', '- l.1', '- l.2'), 0, q(t, 1, 2)]], ...q(t, [], [['.', 'v']]), [['', ['len1 l', 'len0 l', 'push l', 'pop l', 'swap l', '= l.2']]]] }))),
    bounds: 'a subscriber of an element or the length around two scopes of a few methods, assignments and deletions on lists of up to 4 elements' },
  { name: 'getters', harness: 'c21.mjs', witnesses: ['looked', 'told'],
    cases: (t) => ['own', 'class'].flatMap((getters) => [...GREAD.map((g) => ({ getters, script: [['r ' + g, 's ' + g], GSET, ['.', 'r ' + g, 'm ' + g, '= f f'], GSET, ['m ' + g]] })), { getters, script: [['.', 'r both', 'r a'], [['', ['= both', '= add', '= a', '= f f', '= n.x', 'r both', 'r pick', 'r add', 'push l', 'r count', 'all'], 0, q(t, 2, 3)]], ['.', '= add', '= both'], ['.', 'v']] }]),
    bounds: 'read-only getters and accessor pairs that read different properties depending on others, own and inherited, read, written and subscribed to around two writes of what they use' },
  { name: 'getters that change their mind', harness: 'c21.mjs', witnesses: ['looked', 'told'],
    cases: (t) => product(['own', 'class'], ['pick', 'deep', ...q(t, [], ['pair', 'both'])]).map(([getters, g]) => ({ getters, script: [['s ' + g], ...Array(q(t, 3, 4)).fill(['= f f', '= f t', '= a', '= b']), ['= a', '= b', '- a', '- b']] })),
    bounds: (t) => `a getter that stops and starts reading properties, with a subscriber, around ${q(t, 4, 5)} writes of these` });

// ---- C33 --------------------------------------------------------------------------------------
const ALL33 = ['none', 'empty', 'undef', 'blocking', 'visible', 'background', 'transition', 'delay', 'both', 'handler', 'prioHandler', 'delayHandler'];
spec('C33', ['the host runs what it is asked to run; explicit priorities, transitions and delays decide alone'],
  { name: 'priorities', harness: 'c33.mjs', witnesses: ['user-blocking', 'user-visible', 'background'],
    cases: (t) => [undefined, ...range(0, 14)].flatMap((len, i) => [0, 1].map((root) => ({ len, root, other: [65, 45, 48, 58, 46][i % 5], steps: len === undefined ? q(t, 2, 3) : 1, delay: [0, 10, 100, 101, 5000][i % 5], options: i % 3 === 0 ? ALL33 : ['none'] }))).concat(q(t, [], [4, 5, 6, 9].map((len) => ({ len, root: 0, other: 65, steps: 2, options: ['none', 'empty', 'visible'] })))),
    bounds: 'any event type of up to 13 characters (letters and one other), or none, with the document loaded or not; 12 kinds of options' },
  { name: 'transitions', harness: 'c33.mjs', witnesses: [],
    cases: (t) => product(['nth', 'nthBoth'], [0, 1]).map(([o, root]) => ({ steps: q(t, 1, 2), root, options: [o] })),
    bounds: (t) => `${q(t, 'one update', 'two updates')} in any of 75 transitions` },
  { name: 'fallback', harness: 'c33.mjs', witnesses: ['delayed', 'urgent', 'background', 'other'],
    cases: () => product([undefined, 'user-blocking', 'user-visible', 'background'], [0, 1, 2], [0, 1], [0, 1]).filter(([p, , , adapter]) => p !== undefined || adapter).flatMap(([priority, d, noIdle, adapter]) => [{ kind: 'fallback', priority, delay: d === 1 ? 1 : 0, zero: d === 2, env: { noIdle }, adapter }]).concat([undefined, 'user-blocking', 'background'].flatMap((priority) => [0, 1].map((modern) => ({ kind: 'fallback', priority, env: {}, adapter: 1, later: 1, modern }))), [0, 1].map((modern) => ({ kind: 'fallback', env: {}, adapter: 1, bare: 1, modern }))),
    bounds: 'hosts without postTask, with and without idle callbacks; every priority, no delay or any delay up to 100 s' },
  { name: 'commits', harness: 'c33.mjs', witnesses: ['frame', 'timeout'],
    cases: (t) => range(1, q(t, 4, 5)).map((commits) => ({ kind: 'commit', commits })),
    bounds: (t) => `up to ${q(t, 3, 4)} commits asked for, frames and timers coming in any order, commits that fail` });
