// node:path, as far as the plugin uses it.
export const sep = '/';
export function basename(p) { let i = p.length; while (i > 0 && p[i - 1] !== '/') i--; return p.slice(i); }
export function extname(p) { const b = basename(p); let i = b.length; while (i > 0 && b[i - 1] !== '.') i--; return i <= 1 ? '' : b.slice(i - 1); }
