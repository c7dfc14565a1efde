// Matchers: which components they accept and what they make of them.
import { choice, decoded, encoded, integer, keyword, regexp, select } from '@src/addons/router.js';
export default async function main(ctx, c, host) {
  const url = '/u';
  if (c.kind === 'integer') {
    const s = c.text !== undefined ? ctx.pick('s', c.text) : ctx.str(c.ranges ? 't' : 's', c.len, c.ranges ?? [[0, 127]]);
    const r = integer(s, url);
    const d = (ch) => ch >= '0' && ch <= '9';
    const neg = s.length > 0 && s[0] === '-', body = neg ? s.slice(1) : s;
    let ok = body.length > 0, v = 0;
    for (let i = 0; ok && i < body.length; i++) { if (!d(body[i])) ok = false; else v = v * 10 + (body.charCodeAt(i) - 48); }
    if (ok && body[0] === '0' && (body.length > 1 || neg)) ok = false;
    if (ok && c.big) ok = String(neg ? -v : v) === s; // beyond exact integers: only those that stay what they were
    if (ok) { ctx.check(ctx.strict(r, neg ? 0 - v : v), 'an integer is taken for its value', { s, r }); ctx.reach('accepted'); }
    else { ctx.check(r === undefined, 'anything but an integer is turned down', { s, r }); ctx.reach('refused'); }
  } else if (c.kind === 'keyword') {
    const s = ctx.str('w', c.len, [[0, 255]]), k = ctx.str('k', c.klen, [[0, 255]]);
    const r = keyword(k)(s, url);
    if (s === k) { ctx.check(ctx.strict(r, k), 'the keyword is accepted', { s, k, r }); ctx.reach('accepted'); }
    else { ctx.check(r === undefined, 'anything but the keyword is turned down', { s, k, r }); ctx.reach('refused'); }
  } else if (c.kind === 'choice') {
    const comp = ctx.atom('c'), u = ctx.atom('u');
    const results = [...Array(c.n).keys()].map((i) => ctx.any('r' + i, ['undefined', 'null', 'boolean', 'number', 'string', 'empty']));
    const called = [];
    const r = choice(...results.map((v, i) => (a, b) => { called.push([i, a, b]); return v; }))(comp, u);
    const i = results.findIndex((v) => v !== undefined);
    ctx.check(called.every((x) => x[1] === comp && x[2] === u), 'each alternative is given the component and the URL', { called });
    if (i < 0) { ctx.check(r === undefined && called.length === c.n, 'no alternative, no match', { r }); ctx.reach('refused'); }
    else { ctx.check(ctx.same(r, results[i]), 'the first alternative that matches is taken', { r, want: results[i] }); ctx.reach('accepted'); }
  } else if (c.kind === 'select') {
    const comp = ctx.atom('c'), u = ctx.atom('u');
    const v = ctx.any('v', ['undefined', 'null', 'boolean', 'number', 'string', 'empty']), w = ctx.any('w', ['undefined', 'null', 'boolean', 'number', 'string', 'empty']);
    const called = []; let given = true;
    const r = select((a, b) => { given = a === comp && b === u; return v; }, (x) => { called.push(x); return w; })(comp, u);
    ctx.check(given, 'the matcher is given the component and the URL');
    if (v === undefined) { ctx.check(r === undefined && called.length === 0, 'nothing is selected from no match', { r }); ctx.reach('refused'); }
    else { ctx.check(called.length === 1 && ctx.same(called[0], v) && ctx.same(r, w), 'the selected value is the result', { r, want: w, called }); ctx.reach('accepted'); }
  } else if (c.kind === 'decoded') {
    const HEX = '0123456789abcdefABCDEF';
    let s = '', want = '';
    [...c.mask].forEach((m, i) => {
      if (m === 'c') { const ch = ctx.str('d' + i, 1, [[32, 36], [38, 55295]]); s += ch; want += ch; }
      else { const hi = ctx.choose('h' + i, 8), lo = ctx.choose('l' + i, 22); s += '%' + hi + HEX[lo]; want += String.fromCharCode(16 * hi + (lo > 15 ? lo - 6 : lo)); }
    });
    const r = decoded(s, url);
    ctx.check(ctx.strict(r, want), 'escapes are decoded', { s, r, want });
    ctx.reach('accepted');
  } else if (c.kind === 'regexp') {
    const s = ctx.str('x', c.len, [[45, 57], [97, 102]]);
    const r = regexp(/^([a-c]+)-?(\d*)$/)(s, url);
    let i = 0; while (i < s.length && s[i] >= 'a' && s[i] <= 'c') i++;
    let j = i; if (j < s.length && s[j] === '-') j++;
    let k = j; while (k < s.length && s[k] >= '0' && s[k] <= '9') k++;
    if (i > 0 && k === s.length) { ctx.check(r !== undefined && ctx.and(ctx.strict(r[0], s), ctx.strict(r[1], s.slice(0, i)), ctx.strict(r[2], s.slice(j))), 'a match is taken with its groups', { s }); ctx.reach('accepted'); }
    else { ctx.check(r === undefined, 'no match, no capture', { s }); ctx.reach('refused'); }
  } else if (c.kind === 'encoded') {
    const s = ctx.str('e', c.len, [[0, 65535]]);
    ctx.check(ctx.strict(encoded(s, url), s), 'a component is passed on as it is', { s });
    ctx.reach('accepted');
  }
}
