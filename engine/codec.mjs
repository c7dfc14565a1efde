// JSON with undefined, NaN, infinities and negative zero.
export function encode(x) {
  if (x === undefined) return { $: 'undefined' };
  if (typeof x === 'number') return Number.isNaN(x) ? { $: 'NaN' } : x === Infinity ? { $: 'inf' } : x === -Infinity ? { $: '-inf' } : Object.is(x, -0) ? { $: '-0' } : x;
  if (Array.isArray(x)) return x.map(encode);
  if (x !== null && typeof x === 'object') return Object.fromEntries(Object.entries(x).map(([k, v]) => [k, encode(v)]));
  return x;
}
export function decode(x) {
  if (Array.isArray(x)) return x.map(decode);
  if (x !== null && typeof x === 'object') {
    if (typeof x.$ === 'string') switch (x.$) { case 'undefined': return undefined; case 'NaN': return NaN; case 'inf': return Infinity; case '-inf': return -Infinity; case '-0': return -0; }
    return Object.fromEntries(Object.entries(x).map(([k, v]) => [k, decode(v)]));
  }
  return x;
}
