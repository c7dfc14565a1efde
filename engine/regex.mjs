// A small backtracking regular-expression engine over (possibly symbolic) UTF-16 units.
// Unsupported syntax is rejected, never approximated.
const UNICODE = { Control: [[0, 31], [127, 159]], Noncharacter_Code_Point: [[0xfdd0, 0xfdef], [0xfffe, 0xffff]] }; // within the basic plane
export class Regex {
  constructor(source, flags) {
    this.i = flags.includes('i'); this.m = flags.includes('m'); this.s = flags.includes('s');
    this.u = /[uv]/.test(flags);
    this.src = source; this.pos = 0; this.ncap = 0; this.names = null;
    this.root = this.alt();
    if (this.pos !== source.length) throw new Error('unsupported regex ' + source);
  }
  peek(x) { return this.src.startsWith(x, this.pos); }
  eat(x) { if (this.peek(x)) { this.pos += x.length; return true; } return false; }
  alt() {
    const opts = [this.seq()];
    while (this.eat('|')) opts.push(this.seq());
    return opts.length === 1 ? opts[0] : { t: 'alt', opts };
  }
  seq() {
    const items = [];
    while (this.pos < this.src.length && !this.peek('|') && !this.peek(')')) items.push(this.quant(this.atom()));
    return { t: 'seq', items };
  }
  quant(a) {
    let min, max;
    if (this.eat('*')) { min = 0; max = Infinity; } else if (this.eat('+')) { min = 1; max = Infinity; } else if (this.eat('?')) { min = 0; max = 1; } else {
      const mm = /^\{(\d+)(,(\d*))?\}/.exec(this.src.slice(this.pos));
      if (mm === null) return a;
      this.pos += mm[0].length;
      min = Number(mm[1]); max = mm[2] === undefined ? min : mm[3] === '' ? Infinity : Number(mm[3]);
    }
    const lazy = this.eat('?');
    return { t: 'rep', a, min, max, lazy };
  }
  atom() {
    if (this.eat('^')) return { t: 'bol' };
    if (this.eat('$')) return { t: 'eol' };
    if (this.eat('.')) return { t: 'set', neg: !this.s, r: this.s ? [[0, 65535]] : [[10, 10], [13, 13], [0x2028, 0x2029]] };
    if (this.eat('(?:')) return this.close(this.alt());
    if (this.eat('(?=')) return { t: 'look', neg: false, a: this.close(this.alt()) };
    if (this.eat('(?!')) return { t: 'look', neg: true, a: this.close(this.alt()) };
    if (this.eat('(?<=')) return { t: 'behind', neg: false, a: this.close(this.alt()) };
    if (this.eat('(?<!')) return { t: 'behind', neg: true, a: this.close(this.alt()) };
    if (this.eat('(?<')) { const e = this.src.indexOf('>', this.pos); const n = this.src.slice(this.pos, e); this.pos = e + 1; const k = ++this.ncap; (this.names ??= {})[n] = k; return { t: 'cap', k, a: this.close(this.alt()) }; }
    if (this.eat('(')) { const k = ++this.ncap; return { t: 'cap', k, a: this.close(this.alt()) }; }
    if (this.eat('[')) return this.cls();
    if (this.eat('\\')) return this.esc(false);
    const ch = this.src.charCodeAt(this.pos++);
    return this.lit(ch);
  }
  close(a) { if (!this.eat(')')) throw new Error('unsupported regex ' + this.src); return a; }
  lit(ch) {
    if (this.i) { const c = String.fromCharCode(ch); const l = c.toLowerCase().charCodeAt(0), u = c.toUpperCase().charCodeAt(0); if (l !== u) return { t: 'set', neg: false, r: [[l, l], [u, u]] }; }
    return { t: 'set', neg: false, r: [[ch, ch]] };
  }
  esc(inClass) {
    const c = this.src[this.pos++];
    if (this.u && c === 'p') for (const [n, r] of Object.entries(UNICODE)) if (this.eat(`{${n}}`)) return { t: 'set', neg: false, r };
    switch (c) {
      case 'd': return { t: 'set', neg: false, r: [[48, 57]] };
      case 'D': return { t: 'set', neg: true, r: [[48, 57]] };
      case 'w': return { t: 'set', neg: false, r: [[48, 57], [65, 90], [95, 95], [97, 122]] };
      case 'W': return { t: 'set', neg: true, r: [[48, 57], [65, 90], [95, 95], [97, 122]] };
      case 's': return { t: 'set', neg: false, ws: true };
      case 'S': return { t: 'set', neg: true, ws: true };
      case 'n': return this.lit(10); case 'r': return this.lit(13); case 't': return this.lit(9); case 'f': return this.lit(12); case 'v': return this.lit(11); case '0': return this.lit(0);
      case 'b': if (!inClass) return { t: 'wb', neg: false }; return this.lit(8);
      case 'B': if (!inClass) return { t: 'wb', neg: true }; break;
      case 'x': { const h = this.src.slice(this.pos, this.pos + 2); this.pos += 2; return this.lit(parseInt(h, 16)); }
      case 'u': if (/^[0-9a-fA-F]{4}/.test(this.src.slice(this.pos))) { const h = this.src.slice(this.pos, this.pos + 4); this.pos += 4; return this.lit(parseInt(h, 16)); } break;
    }
    if (/[a-zA-Z1-9]/.test(c)) throw new Error('unsupported regex escape \\' + c);
    return this.lit(c.charCodeAt(0));
  }
  cls() {
    const neg = this.eat('^');
    const r = []; let ws = false;
    while (!this.eat(']')) {
      if (this.pos >= this.src.length) throw new Error('unsupported regex ' + this.src);
      let a;
      if (this.eat('\\')) {
        const s = this.esc(true);
        if (s.ws) { if (s.neg) throw new Error('unsupported class'); ws = true; continue; }
        if (s.neg) throw new Error('unsupported class');
        if (s.r.length !== 1 || s.r[0][0] !== s.r[0][1]) { r.push(...s.r); continue; }
        a = s.r[0][0];
      } else a = this.src.charCodeAt(this.pos++);
      if (this.src[this.pos] === '-' && this.src[this.pos + 1] !== ']') {
        this.pos++;
        let b;
        if (this.eat('\\')) { const s = this.esc(true); b = s.r[0][0]; } else b = this.src.charCodeAt(this.pos++);
        r.push([a, b]);
        if (this.i) throw new Error('unsupported case-insensitive range');
      } else { r.push(...(this.i ? this.lit(a).r : [[a, a]])); }
    }
    return { t: 'set', neg, r, ws };
  }
  exec(us, start, sticky, env) {
    for (let i = start; i <= us.length; i++) {
      const caps = new Array(this.ncap + 1).fill(undefined);
      const e = this.run(this.root, us, i, caps, env, (j) => j);
      if (e >= 0) { caps[0] = [i, e]; return { start: i, end: e, caps, names: this.names }; }
      if (sticky) break;
    }
    return null;
  }
  inSet(n, u, env) {
    const r = n.ws ? [...env.WS, ...(n.r ?? [])] : n.r;
    const x = env.unitInSet(u, r);
    return n.neg ? !x : x;
  }
  // matches n at position i; k is the continuation; returns the end position or -1
  run(n, us, i, caps, env, k) {
    switch (n.t) {
      case 'seq': {
        const step = (x, j) => x === n.items.length ? k(j) : this.run(n.items[x], us, j, caps, env, (e) => step(x + 1, e));
        return step(0, i);
      }
      case 'alt': { for (const o of n.opts) { const e = this.run(o, us, i, caps, env, k); if (e >= 0) return e; } return -1; }
      case 'set': return i < us.length && this.inSet(n, us[i], env) ? k(i + 1) : -1;
      case 'bol': return i === 0 || (this.m && env.unitInSet(us[i - 1], [[10, 10], [13, 13]])) ? k(i) : -1;
      case 'eol': return i === us.length || (this.m && env.unitInSet(us[i], [[10, 10], [13, 13]])) ? k(i) : -1;
      case 'wb': { const w = (j) => j >= 0 && j < us.length && env.unitInSet(us[j], [[48, 57], [65, 90], [95, 95], [97, 122]]); return (w(i - 1) !== w(i)) !== n.neg ? k(i) : -1; }
      case 'cap': { const old = caps[n.k]; const e = this.run(n.a, us, i, caps, env, (j) => { const o2 = caps[n.k]; caps[n.k] = [i, j]; const r = k(j); if (r < 0) caps[n.k] = o2; return r; }); if (e < 0) caps[n.k] = old; return e; }
      case 'look': { const e = this.run(n.a, us, i, caps, env, (j) => j); return (e >= 0) !== n.neg ? k(i) : -1; }
      case 'behind': {
        let ok = false;
        for (let st = i; st >= 0 && !ok; st--) ok = this.run(n.a, us.slice(0, i), st, caps, env, (j) => j === i ? j : -1) >= 0;
        return ok !== n.neg ? k(i) : -1;
      }
      case 'rep': {
        const go = (cnt, j) => {
          const more = () => cnt < n.max ? this.run(n.a, us, j, caps, env, (e) => e === j && cnt >= n.min ? -1 : go(cnt + 1, e)) : -1;
          if (cnt < n.min) return more();
          if (n.lazy) { const e = k(j); return e >= 0 ? e : more(); }
          const e = more();
          return e >= 0 ? e : k(j);
        };
        return go(0, i);
      }
    }
    throw new Error('regex node ' + n.t);
  }
}
