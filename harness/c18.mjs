// Router: for any URL, the first route depth first whose patterns match all components, with the captures on its path.
import { Router, route, encoded, keyword, integer } from '@src/addons/router.js';

const FALSY = [null, false, 0, ''];
export default async function main(ctx, c, host) {
  const url = c.url !== undefined ? [...c.url].map((x, i) => x === '?' ? ctx.str('at' + i, 1, [[97, 98]]) : x).join('') : ctx.str(c.digits ? 'URL' : 'url', c.len, [[97, 98], [47, 47], ...(c.digits ? [[48, 49]] : [])]);
  let n = 0;
  const wrong = [];
  const patternOf = (k) => {
    const id = n++;
    switch (k) {
      case 'k': { const s = ctx.str('p' + id, 1, [[97, 98]]); return { p: s, ok: (x) => x === s, cap: null }; } // text
      case 'z': return { p: '', ok: (x) => x === '', cap: null }; // empty text
      case 'm': { // a matcher accepting one component
        const s = ctx.str('p' + id, 1, [[97, 98]]);
        return { p: (x, u) => { if (u !== url) wrong.push(id); return x === s ? { id, x } : undefined; }, ok: (x) => x === s, cap: (x) => ({ id, x }) };
      }
      case 'n': return { p: (x, u) => { if (u !== url) wrong.push(id); return { id, x }; }, ok: () => true, cap: (x) => ({ id, x }) }; // accepts everything
      case 'f': { const v = FALSY[ctx.choose('v' + id, FALSY.length)]; return { p: (x) => x.length === 1 ? v : undefined, ok: (x) => x.length === 1, cap: () => v }; }
      case 'x': return { p: () => undefined, ok: () => false, cap: () => null };
      case 'e': return { p: encoded, ok: () => true, cap: (x) => x };
      case 'w': { const s = ctx.str('p' + id, 1, [[97, 98]]); return { p: keyword(s), ok: (x) => x === s, cap: (x) => x }; }
      case 'i': return { p: integer, ok: (x) => x.length > 0 && [...Array(x.length).keys()].every((i) => x[i] === '0' || x[i] === '1') && (x.length === 1 || x[0] === '1'), cap: (x) => { let v = 0; for (let i = 0; i < x.length; i++) v = v * 10 + (x[i] === '1' ? 1 : 0); return v; } };
    }
  };
  const all = []; // every route in order, depth first, with the patterns from the root
  const calls = [];
  const build = (spec, path) => {
    const [pats, kids = []] = typeof spec === 'string' ? [spec] : spec;
    const none = pats[0] === '!';
    const own = [...(none ? pats.slice(1) : pats)].map(patternOf);
    const id = all.length, full = [...path, ...own];
    all.push({ id, full, none });
    const resolver = none ? null : (captures, u) => { calls.push({ id, captures: [...captures], u }); return c.undef === id ? undefined : { id }; };
    return route(own.map((p) => p.p), resolver, kids.map((k) => build(k, full)));
  };
  const router = new Router(c.table.map((s) => build(s, [])));
  for (let round = 0; round < (c.twice ? 2 : 1); round++) {
    calls.length = 0;
    const got = router.match(url);
    const text = url.length > 0 && url[0] === '/' ? url.slice(1) : url;
    const comps = text.split('/');
    let hit = null;
    for (const r of all) if (r.full.length === comps.length && r.full.every((p, i) => p.ok(comps[i]))) { hit = r; break; }
    if (hit === null || hit.none) {
      ctx.check(got === undefined && calls.length === 0, 'a URL that no route matches gives nothing', { url, got, calls });
      ctx.reach('none');
    } else {
      ctx.check(calls.length === 1 && calls[0].id === hit.id && ctx.strict(calls[0].u, url), 'the first matching route is the one called', { url, want: hit.id, calls });
      ctx.check(c.undef === hit.id ? got === undefined : got !== undefined && got.id === hit.id, 'its result is the result', { url, want: hit.id, got });
      const want = []; hit.full.forEach((p, i) => { if (p.cap !== null) want.push(p.cap(comps[i])); });
      ctx.check(calls.length === 1 && ctx.eq(calls[0].captures, want), 'it is called with the captures on its path, in order', { url, want, got: calls[0]?.captures });
      ctx.reach('matched');
      if (want.length > 0) ctx.reach('captured');
    }
    ctx.check(wrong.length === 0, 'matchers are told the URL', { wrong });
  }
}
