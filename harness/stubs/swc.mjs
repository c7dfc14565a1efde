// Stands for @swc/core: parse hands out what the harness prepared, print records what it is given.
export const swc = { parse: undefined, calls: [], printed: [], fail: undefined };
export async function parse(input, options) { swc.calls.push([input, options]); return swc.parse(input, options); }
export async function print(module, ...rest) { if (swc.fail === 'print') throw new Error('print'); swc.printed.push([module, rest]); return { code: 'printed' + swc.printed.length, map: '' }; }
